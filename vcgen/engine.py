"""Verification-condition generator.

Executes the LLVM IR that clang produced from /repo's sources symbolically, over all inputs,
function by function.  Every `requires` (vp_assume), `ensures` (vp_assert), memory access,
trap and callee precondition becomes an obligation; loops whose trip count is not fixed are cut
at their header with an inductive invariant (inferred, Houdini style, from generic templates
and the templates of the contract file), so nothing is bounded by an unrolling depth unless the
contract is labelled bounded.  Obligations are discharged by z3, cvc5 (portfolio)."""
import os, subprocess, sys, tempfile, time, itertools, math, struct
import z3
from z3 import (BitVec, BitVecVal, BitVecRef, BoolRef, BoolVal, And, Or, Not, If, ULT, ULE, UGT, UGE, LShR, UDiv, URem,
                SRem, ZeroExt, SignExt, Extract, Concat, Bool, is_bv, is_bool, is_fp, simplify, Solver, SimpleSolver, sat, unsat, unknown,
                fpBVToFP, fpToIEEEBV, RNE, RTZ, RTP, RTN, FP, FPVal, FPSort, fpToSBV, fpToUBV, fpSignedToFP,
                fpUnsignedToFP, fpFPToFP, is_bv_value, is_true, is_false)
import llvmir
import interval
z3.set_param("rewriter.bv_le2extract", False)

F32 = FPSort(8, 24)
F64 = FPSort(11, 53)
F80 = FPSort(15, 64)
SORT = {"float": F32, "double": F64, "x86_fp80": F80}
FPW = {"float": 32, "double": 64, "x86_fp80": 80}
rne = RNE()
rtz = RTZ()
MASK64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class ContractError(Exception):
    pass


class Fork(Exception):
    def __init__(self, options):
        self.options = options  # list of (cond, key, value)


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class PathEnd(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return f"&{self.obj}+{self.off}"


NULL = Ptr(None, 0)


class Obj:
    __slots__ = ("size", "base", "layers", "freed", "kind", "name", "const", "owner", "id")

    def __init__(self, size, kind, name, base=("undef",)):
        self.size = size
        self.kind = kind
        self.name = name
        self.base = base
        self.layers = [("cells", {})]
        self.freed = False
        self.const = False
        self.owner = None
        self.id = None

    def clone(self, owner):
        o = Obj(self.size, self.kind, self.name, self.base)
        o.layers = list(self.layers)
        if o.layers[-1][0] == "cells":
            o.layers[-1] = ("cells", dict(o.layers[-1][1]))
        o.freed = self.freed
        o.const = self.const
        o.owner = owner
        o.id = self.id
        return o


class Frame:
    __slots__ = ("fn", "regs", "block", "prev", "idx", "retinst", "allocas", "visits", "cuts", "tag")

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.block = None
        self.prev = None
        self.idx = 0
        self.retinst = None
        self.allocas = []
        self.visits = {}
        self.cuts = ()
        self.tag = None

    def clone(self):
        f = Frame(self.fn)
        f.regs = dict(self.regs)
        f.block = self.block
        f.prev = self.prev
        f.idx = self.idx
        f.retinst = self.retinst
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.cuts = self.cuts
        f.tag = self.tag
        return f


class State:
    def __init__(self):
        self.pc = []
        self.objs = {}
        self.frames = []
        self.inputs = []
        self.concr = {}
        self.exn = None
        self.caught = []
        self.templates = []
        self.replaces = {}
        self.owner = object()
        self.writes = None  # set while dry running a loop body
        self.result = None
        self.guards = {}
        self.symforks = 0
        self.addrs = {}
        self.newobjs = frozenset()
        self.cfg = {}

    def clone(self):
        s = State()
        s.pc = list(self.pc)
        s.objs = dict(self.objs)
        s.frames = [f.clone() for f in self.frames]
        s.inputs = list(self.inputs)
        s.concr = dict(self.concr)
        s.exn = self.exn
        s.caught = list(self.caught)
        s.templates = list(self.templates)
        s.replaces = dict(self.replaces)
        s.writes = self.writes
        s.guards = dict(self.guards)
        s.symforks = self.symforks
        s.addrs = dict(self.addrs)
        s.newobjs = self.newobjs
        s.cfg = dict(self.cfg)
        # both sides lose ownership: objects are cloned on the next write
        self.owner = object()
        s.owner = object()
        return s

    def wobj(self, oid):
        o = self.objs[oid]
        if o.owner is not self.owner:
            o = o.clone(self.owner)
            self.objs[oid] = o
        return o


class Obligation:
    __slots__ = ("kind", "label", "loc", "status", "backend", "time", "model", "contract", "smt")

    def __repr__(self):
        return f"{self.contract}/{self.kind}:{self.label} @{self.loc} {self.status}"


def isint(x):
    return type(x) is int


def bv(x, w):
    if type(x) is int:
        return BitVecVal(x, w)
    if isinstance(x, BoolRef):
        return If(x, BitVecVal(1, w), BitVecVal(0, w))
    return x


def tobool(x):
    if type(x) is int:
        return BoolVal(bool(x))
    if isinstance(x, BoolRef):
        return x
    return x == BitVecVal(1, 1)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def simp(x):
    """simplify a bit-vector / bool expression, to an int when constant"""
    if type(x) is int:
        return x
    x = simplify(x)
    if isinstance(x, BitVecRef):
        if is_bv_value(x):
            return x.as_long()
        return x
    if is_true(x):
        return 1
    if is_false(x):
        return 0
    return x


def fpconst(v, kind):
    return FPVal(v, SORT[kind])


def fp_bits(v):
    """IEEE bits of an fp expression when they are known exactly, else None"""
    if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and is_bv(v.arg(0)):
        return v.arg(0)
    if z3.is_fp_value(v):
        if v.isNaN():
            return None
        s = v.sort()
        w = s.ebits() + s.sbits()
        if w in (32, 64):
            b = simplify(fpToIEEEBV(v))
            if is_bv_value(b):
                return b
    return None


def is_concrete_fp(v):
    return z3.is_fp_value(v)


STD_BASES = {}
for _l in """St9exception:
St11logic_error:St9exception
St13runtime_error:St9exception
St12out_of_range:St11logic_error
St12length_error:St11logic_error
St16invalid_argument:St11logic_error
St12domain_error:St11logic_error
St11range_error:St13runtime_error
St14overflow_error:St13runtime_error
St15underflow_error:St13runtime_error
St9bad_alloc:St9exception
St20bad_array_new_length:St9bad_alloc
St8bad_cast:St9exception
St10bad_typeid:St9exception
St18bad_variant_access:St9exception
St19bad_optional_access:St9exception
St17bad_function_call:St9exception
St12system_error:St13runtime_error""".split("\n"):
    _a, _b = _l.split(":")
    STD_BASES["_ZTI" + _a] = "_ZTI" + _b if _b else None

THROWERS = {
    "_ZSt20__throw_length_errorPKc": "_ZTISt12length_error",
    "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range",
    "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range",
    "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error",
    "_ZSt24__throw_invalid_argumentPKc": "_ZTISt16invalid_argument",
    "_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc",
    "_ZSt28__throw_bad_array_new_lengthv": "_ZTISt20bad_array_new_length",
    "_ZSt25__throw_bad_function_callv": "_ZTISt17bad_function_call",
    "_ZSt16__throw_bad_castv": "_ZTISt8bad_cast",
    "__cxa_bad_cast": "_ZTISt8bad_cast",
    "_ZSt26__throw_bad_variant_accessPKc": "_ZTISt18bad_variant_access",
    "_ZSt27__throw_bad_optional_accessv": "_ZTISt19bad_optional_access",
    "_ZSt20__throw_system_errori": "_ZTISt12system_error",
    "_ZSt21__throw_runtime_errorPKc": "_ZTISt13runtime_error",
    "_ZSt20__throw_domain_errorPKc": "_ZTISt12domain_error",
}


BVT = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "ackermannize_bv", "bit-blast", "sat")


class Cvc5:
    def __init__(self, smt, ms):
        self.p = None
        try:
            fd, self.f = tempfile.mkstemp(suffix=".smt2", prefix="vp_")
            os.write(fd, ("(set-logic ALL)\n" + smt).encode())
            os.close(fd)
            self.p = subprocess.Popen(["cvc5", "--solve-bv-as-int=iand", "--tlimit=%d" % int(ms + 300), self.f], stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL)
        except OSError:
            pass

    def wait(self, secs):
        if self.p is None:
            return None
        try:
            out = self.p.communicate(timeout=max(secs, 0.001))[0].decode("utf8", "replace").strip().split("\n")[0]
        except subprocess.TimeoutExpired:
            return None
        self.p_done = True
        p, self.p = self.p, None
        os.unlink(self.f)
        return {"unsat": unsat, "sat": sat}.get(out)

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.communicate()
            self.p = None
            os.unlink(self.f)


class Engine:
    def __init__(self, module, opts=None):
        self.mod = module
        self.opts = opts or {}
        self.nfresh = 0
        self.nobj = 1000
        self.gids = {}
        self.obligations = []
        self.quiet = 0
        self.solver = Solver()
        self.sstack = []
        self.feas_timeout = self.opts.get("feas_ms", 800)
        self.quick_timeout = self.opts.get("quick_ms", 3000)
        self.slow_timeout = self.opts.get("slow_s", 60)
        self.labels_hit = set()
        self.covers_hit = {}
        self.cutloops = {}
        self.ends = 0
        self.contract = ""
        self.unroll = self.opts.get("unroll", 4)
        self.split = self.opts.get("split", 0)
        self.fpabs = self.opts.get("fpabs", 0)
        self.fpprods = []
        self.fpbits = {}
        self.ivcache = {}
        self.stats = {"inst": 0, "paths": 0, "queries": 0, "solver_s": 0.0, "inv": 0, "cuts": 0}
        self.constcache = {}
        self.failed = []
        self.undecided = []
        self.typeids = {}
        self.called = {}
        self.externals = {}
        self.assumed = set()
        self.invariants = []
        self.deadline = None
        self.fail_fast = self.opts.get("fail_fast", False)
        self.bounded = False
        self.fncache = {}
        self.init_state = None
        self.axioms = []
        self.axioms_in = 0
        self.symcache = {}
        self.symkeep = {}
        self.defs = []
        self.rems = []
        self.rem_seen = set()

    # ------------------------------------------------------------------ solver
    def fresh(self, name, w):
        self.nfresh += 1
        return BitVec(f"{name}!{self.nfresh}", w)

    def fresh_bool(self, name):
        self.nfresh += 1
        return Bool(f"{name}!{self.nfresh}")

    def fresh_fp(self, name, kind):
        self.nfresh += 1
        if kind == "x86_fp80":
            return FP(f"{name}!{self.nfresh}", F80)
        return fpBVToFP(BitVec(f"{name}!{self.nfresh}", FPW[kind]), SORT[kind])

    def fresh_ty(self, name, ty):
        k = ty.kind
        if k == "int":
            return self.fresh_bool(name) if ty.width == 1 else self.fresh(name, ty.width)
        if k in FPW:
            return self.fresh_fp(name, k)
        if k == "ptr":
            return self.fresh(name, 64)
        if k == "struct":
            return [self.fresh_ty(name, e) for e in ty.elts]
        if k in ("array", "vector"):
            return [self.fresh_ty(name, ty.elt) for _ in range(ty.n)]
        raise Unsupported("fresh " + k)

    def axiom(self, e):
        """a universally valid fact about an abstracted operation"""
        self.axioms.append(e)

    def rem_abs(self, a, b, w, signed):
        """remainder by a symbolic divisor: uninterpreted, with valid lemmas; the exact definition is
        kept in self.defs and used to confirm any counterexample"""
        f = z3.Function(f"{'s' if signed else 'u'}rem{w}", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        a, b = simplify(a), simplify(b)
        r = f(a, b)
        k = (a.get_id(), b.get_id(), signed)
        if k in self.rem_seen:
            return r
        self.rem_seen.add(k)
        z = BitVecVal(0, w)
        if signed:
            self.axiom(z3.Implies(And(b > z, a >= z), And(r >= z, r < b, r <= a)))
            self.axiom(z3.Implies(And(b > z, a >= z, a < b), r == a))
            self.axiom(z3.Implies(And(b > z, a >= b, a - b < b), r == a - b))
            self.axiom(z3.Implies(And(b > z, a < z, a <= -b, a + b > -b), r == a + b))
            self.axiom(z3.Implies(And(b > z, a < z), And(r <= z, r > -b, r >= a)))
            self.axiom(z3.Implies(And(b > z, a < z, -b < a), r == a))
            self.defs.append(r == SRem(a, b))
        else:
            self.axiom(z3.Implies(b != z, And(ULT(r, b), ULE(r, a))))
            self.axiom(z3.Implies(ULT(a, b), r == a))
            self.defs.append(r == URem(a, b))
        for (a1, b1, r1, s1) in self.rems:
            if s1 != signed or not b1.eq(b):
                continue
            for (x1, rr1, x2, rr2) in ((a1, r1, a, r), (a, r, a1, r1)):
                # x2 = x1 - x1%b + b, or x1 - x1%b, or x1 + b: no wrap-around for x1 < 2^(w-2), b < 2^(w-2)
                big = BitVecVal(1 << (w - 2), w)
                small = And(x1 >= z, x1 < big, b > z, b < big) if signed else And(ULT(x1, big), ULT(b, big), b != z)
                self.axiom(z3.Implies(And(small, x2 == x1 + (b - rr1)), rr2 == z))
                self.axiom(z3.Implies(And(small, x2 == x1 - rr1), rr2 == z))
                self.axiom(z3.Implies(And(small, x2 == x1 + b), rr2 == rr1))
                if signed:
                    self.axiom(z3.Implies(And(x1 <= z, x1 > -big, b > z, b < big, x2 == x1 - b), rr2 == rr1))
        self.rems.append((a, b, r, signed))
        return r

    def sync(self, pc):
        if self.axioms_in < len(self.axioms):
            if self.sstack:
                self.solver.pop(len(self.sstack))
                self.sstack = []
            for e in self.axioms[self.axioms_in:]:
                self.solver.add(e)
            self.axioms_in = len(self.axioms)
        i = 0
        n = min(len(pc), len(self.sstack))
        while i < n and self.sstack[i] is pc[i]:
            i += 1
        d = len(self.sstack) - i
        if d:
            self.solver.pop(d)
            del self.sstack[i:]
        for e in pc[i:]:
            self.solver.push()
            self.solver.add(e)
            self.sstack.append(e)

    def symbols(self, e):
        """(names of the uninterpreted constants of e, has floating point, has arrays)"""
        k = e.get_id()
        c = self.symcache.get(k)
        if c is not None and c[0].eq(e):
            return c[1]
        names, flags = set(), set()
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = self.symcache.get(i)
            if c is not None and c[0].eq(x):
                names |= c[1][0]
                flags |= c[1][1]
                continue
            if z3.is_app(x):
                sk = x.sort().kind()
                if sk in (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ROUNDING_MODE_SORT):
                    flags.add("fp")
                elif sk == z3.Z3_ARRAY_SORT:
                    flags.add("arr")
                dk = x.decl().kind()
                if dk == z3.Z3_OP_UNINTERPRETED:
                    if x.num_args() == 0:
                        names.add(i)
                        self.symkeep[i] = x
                    else:
                        flags.add("uf")
                todo.extend(x.children())
            else:
                flags.add("q")
                todo.extend(x.children())
        r = (frozenset(names), frozenset(flags))
        self.symcache[k] = (e, r)
        return r

    def slice(self, pc, extra):
        """the conjuncts of pc connected to extra through shared symbols"""
        want = set()
        for e in extra:
            want |= self.symbols(e)[0]
        rest = [(e, self.symbols(e)[0]) for e in pc]
        rest += [(e, self.symbols(e)[0]) for e in self.axioms]
        keep = []
        while True:
            nxt, hit = [], False
            for e, v in rest:
                if not v or v & want:
                    keep.append(e)
                    want |= v
                    hit = True
                else:
                    nxt.append((e, v))
            rest = nxt
            if not hit or not rest:
                return keep

    def infeasible(self, pc, extra):
        """is a part of pc that the sliced query left out unsatisfiable?  The parts share no symbol."""
        kept = set(e.get_id() for e in self.slice(pc, extra))
        left = [e for e in list(pc) + self.axioms if e.get_id() not in kept]
        while left:
            part = self.slice(left[1:], left[:1])
            ids = set(e.get_id() for e in part)
            es = left[:1] + [e for e in left[1:] if e.get_id() in ids]
            left = [e for e in left[1:] if e.get_id() not in ids]
            for solver, ms in ((SimpleSolver(), 3000), (BVT.solver(), 5000), (Solver(), 15000)):
                solver.set("timeout", ms)
                for e in es:
                    solver.add(e)
                try:
                    r = solver.check()
                except z3.Z3Exception:
                    continue
                if r == unsat:
                    return True
                if r == sat:
                    break
        return False

    def fresh_check(self, pc, extra, timeout):
        """one-shot solvers on the sliced query"""
        es = self.slice(pc, extra) + list(extra)
        fl = set()
        for e in es:
            fl |= self.symbols(e)[1]
        bvonly = not (fl & {"fp", "arr", "q"})
        whole = len(es) == len(pc) + len(self.axioms) + len(extra)
        proc = None
        if bvonly:
            # linear arithmetic over machine integers: cvc5 with integer blasting
            ps = SimpleSolver()
            for e in es:
                ps.add(e)
            proc = Cvc5(ps.to_smt2(), timeout)
        try:
            for k in range(3):
                if k == 0:
                    s, ms = SimpleSolver(), min(timeout, 700)
                elif k == 1:
                    if not bvonly:
                        continue
                    r = proc.wait(timeout / 1000)
                    if r is not None:
                        return r, None
                    s, ms = BVT.solver(), timeout
                elif timeout < 1000:
                    break
                else:
                    s, ms = (SimpleSolver() if bvonly else Solver()), timeout
                s.set("timeout", int(ms))
                for e in es:
                    s.add(e)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == unsat:
                    return r, None
                if r == sat:
                    return r, (s.model() if whole else None)
                if proc is not None:
                    r = proc.wait(0)
                    if r is not None:
                        return r, None
            return unknown, None
        finally:
            if proc is not None:
                proc.kill()

    def check(self, pc, extra, timeout, need_model=False):
        """sat/unsat/unknown of pc + extra"""
        if self.deadline and time.time() > self.deadline:
            raise ContractError("time budget exhausted")
        t = time.time()
        self.stats["queries"] += 1
        self.sync(pc)
        self.solver.set("timeout", int(min(timeout, 250)))
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == sat else None
        self.solver.pop()
        if r == unknown and timeout > 250:
            r, m = self.fresh_check(pc, extra, timeout)
            if need_model and r == sat and m is None:
                s = SimpleSolver()
                s.set("timeout", timeout)
                for e in self.axioms + list(pc) + list(extra):
                    s.add(e)
                r2 = s.check()
                if r2 == sat:
                    m = s.model()
                elif r2 == unsat:
                    r = unsat
        self.stats["solver_s"] += time.time() - t
        return r, m

    def ivenv(self, pc):
        """interval environment of a path condition (shared along the prefix chain)"""
        n = len(pc)
        if n == 0:
            return interval.Env()
        key = (n, pc[-1].get_id(), pc[0].get_id(), pc[n // 2].get_id())
        c = self.ivcache.get(key)
        if c is not None and c[0] == [e.get_id() for e in pc]:
            return c[1]
        # longest cached prefix
        ids = [e.get_id() for e in pc]
        base, m = None, 0
        for k in range(n - 1, max(-1, n - 12), -1):
            if k == 0:
                break
            c = self.ivcache.get((k, ids[k - 1], ids[0], ids[k // 2]))
            if c is not None and c[0] == ids[:k]:
                base, m = c[1], k
                break
        env = interval.Env(base)
        for e in pc[m:]:
            env.assume(e)
        if m == 0:
            for e in pc:
                env.assume(e)
        if len(self.ivcache) > 4000:
            self.ivcache.clear()
        self.ivcache[key] = (ids, env, list(pc))
        return env

    def feasible(self, st, cond):
        c = simplify(cond) if not isinstance(cond, bool) else BoolVal(cond)
        if is_true(c):
            return True
        if is_false(c):
            return False
        if self.ivenv(st.pc).truth(c) is False:
            self.stats["interval"] = self.stats.get("interval", 0) + 1
            return False
        r, _ = self.check(st.pc, [c], self.feas_timeout)
        return r != unsat

    def valid_quick(self, st, cond):
        c = simplify(cond)
        if is_true(c):
            return True
        if is_false(c):
            r, _ = self.check(st.pc, [], self.feas_timeout)
            return r == unsat
        if self.ivenv(st.pc).truth(c) is True:
            self.stats["interval"] = self.stats.get("interval", 0) + 1
            return True
        r, _ = self.check(st.pc, [Not(c)], self.quick_timeout)
        return r == unsat

    def portfolio(self, pc, neg):
        """try the other back ends on a hard obligation; returns (status, backend, model-or-None)"""
        s = Solver()
        for e in self.axioms:
            s.add(e)
        for e in pc:
            s.add(e)
        s.add(neg)
        smt = s.to_smt2()
        d = tempfile.mkdtemp(prefix="vp_smt_")
        f = os.path.join(d, "q.smt2")
        with open(f, "w") as o:
            o.write("(set-logic ALL)\n" + smt)
        T = self.slow_timeout
        cmds = [("cvc5", ["cvc5", "--tlimit=%d" % (T * 1000), f]),
                ("z3-new", ["z3-new", "-T:%d" % T, f]),
                ("z3-4.8.12", ["z3", "-T:%d" % T, f])]
        procs = []
        for n, c in cmds:
            try:
                procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
            except OSError:
                pass
        end = time.time() + T + 5
        res = (unknown, "portfolio")
        pend = list(procs)
        while pend and time.time() < end:
            for n, p in list(pend):
                if p.poll() is not None:
                    out = p.stdout.read().decode("utf8", "replace").strip().split("\n")[0]
                    pend.remove((n, p))
                    if out == "unsat":
                        res = (unsat, n)
                    elif out == "sat":
                        res = (sat, n)
                    else:
                        continue
                    pend_kill = pend
                    for _, q in pend_kill:
                        q.kill()
                    pend = []
                    break
            time.sleep(0.02)
        for _, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        subprocess.call(["rm", "-rf", d])
        if res[0] == sat:
            # want a model: give z3 more time
            s.set("timeout", 20000)
            m = s.model() if s.check() == sat else None
            return sat, res[1], m
        return res[0], res[1], None

    def loc(self, st):
        for f in reversed(st.frames):
            if f.block is not None and f.idx < len(f.block.insts):
                i = f.block.insts[f.idx]
                if i.line:
                    return f"{os.path.basename(i.file)}:{i.line}"
        return st.frames[-1].fn.name if st.frames else "?"

    def oblige(self, st, cond, kind, label):
        """generate an obligation `pc => cond` and discharge it; afterwards assume cond"""
        if not isinstance(cond, BoolRef):
            cond = BoolVal(bool(cond))
        c = simplify(cond)
        if self.quiet:
            if not is_true(c):
                st.pc.append(c)
                if is_false(c):
                    raise PathEnd()
            return True
        ob = Obligation()
        ob.kind = kind
        ob.label = label
        ob.loc = self.loc(st)
        ob.contract = self.contract
        ob.model = None
        ob.smt = None
        self.obligations.append(ob)
        if is_true(c):
            ob.status, ob.backend = "discharged", "simplifier"
            ob.time = 0.0
            return True
        ob.status, ob.backend, ob.time = "pending", "", 0.0
        ob.smt = (list(st.pc), c, list(st.inputs))
        st.pc.append(c)
        if is_false(c):
            raise PathEnd()
        return True

    def discharge_all(self):
        """solve the obligations generated by the exploration, in path order"""
        for ob in self.obligations:
            if ob.status == "pending":
                self.discharge(ob)
                ob.smt = None

    def discharge(self, ob):
        pc, c, inputs = ob.smt
        t = time.time()
        neg = Not(c)
        if len([o for o in self.failed if o.label == ob.label and o.kind == ob.kind]) >= 3 or len(self.undecided) >= 12:
            # enough evidence about this obligation already
            ob.status, ob.backend = "skipped", "none"
            return
        r, m = self.check(pc, [neg], self.quick_timeout)
        be = "z3"
        if r == unknown:
            r, be, m = self.portfolio(pc, neg)
            self.stats["solver_s"] += time.time() - t
        if r == sat and m is None and self.infeasible(pc, [neg]):
            r = unsat
        ob.time = time.time() - t
        ob.backend = be
        if r == sat and self.defs:
            # confirm with the exact definitions of the abstracted operations
            s = Solver()
            s.set("timeout", 20000)
            for e in self.axioms + self.defs + pc + [neg]:
                s.add(e)
            r2 = s.check()
            if r2 == sat:
                m = s.model()
            elif r2 == unsat:
                r, be = unsat, "z3"
            else:
                r = unknown
                ob.model = self.extract_inputs(pc, inputs, neg, m)
        if r == unsat:
            ob.status = "discharged"
        elif r == sat and ob.kind == "abstraction":
            ob.status = "undecided"
            self.undecided.append(ob)
        elif r == sat:
            ob.status = "failed"
            ob.model = self.extract_inputs(pc, inputs, neg, m)
            self.failed.append(ob)
        else:
            ob.status = "undecided"
            self.undecided.append(ob)

    def oblige_inv(self, st, cond, label):
        """an invariant that Houdini selected: a failure here is a failure of the machinery, not of the code"""
        try:
            return self.oblige(st, cond, "invariant", label)
        except PathEnd:
            return False

    def undecided_note(self, kind, label):
        ob = Obligation()
        ob.kind, ob.label, ob.loc, ob.contract = kind, label, "", self.contract
        ob.status, ob.backend, ob.time, ob.model, ob.smt = "undecided", "none", 0.0, None, None
        self.obligations.append(ob)
        self.undecided.append(ob)

    def extract_inputs(self, pc, inputs, neg, m):
        """concrete values for the contract's symbolic inputs from the counterexample, small sizes preferred"""
        s = Solver()
        s.set("timeout", 4000)
        for e in self.axioms:
            s.add(e)
        for e in pc:
            s.add(e)
        s.add(neg)
        best = m
        sizes = [i["n"] for i in inputs if i["t"] == "buf" and not isint(i["n"])]
        for lim in (8, 64, 1024):
            if not sizes:
                break
            s.push()
            for n in sizes:
                s.add(ULE(n, lim))
            if s.check() == sat:
                best = s.model()
                s.pop()
                break
            s.pop()
        if best is None:
            if s.check() == sat:
                best = s.model()
            else:
                return None
        m = best
        out = []
        for i in inputs:
            if i["t"] == "buf":
                n = i["n"] if isint(i["n"]) else m.eval(i["n"], True).as_long()
                n = min(n, 65536)
                vals = []
                for k in range(n):
                    e = m.eval(z3.Select(i["e"], BitVecVal(k, 64)), True)
                    vals.append(e.as_long() if is_bv_value(e) else 0)
                out.append({"n": i["name"], "t": "buf", "w": i["w"], "v": vals})
            else:
                e = i["e"]
                if isinstance(e, BoolRef):
                    v = 1 if is_true(m.eval(e, True)) else 0
                else:
                    e = m.eval(e, True)
                    v = e.as_long() if is_bv_value(e) else 0
                out.append({"n": i["name"], "t": i["t"], "v": v})
        return out

    # ------------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name, base=("undef",)):
        self.nobj += 1
        o = Obj(size, kind, name, base)
        o.id = self.nobj
        o.owner = st.owner
        st.objs[o.id] = o
        if st.writes is not None:
            st.newobjs = st.newobjs | {o.id}
        return o.id

    def global_obj(self, st, gv):
        gid = self.gids.get(gv.name)
        if gid is None:
            gid = len(self.gids) + 1
            self.gids[gv.name] = gid
        if gid not in st.objs:
            o = Obj(gv.ty.size, "global", gv.name)
            o.id = gid
            o.const = gv.const
            o.owner = st.owner
            st.objs[gid] = o
            init = self.mod.global_init(gv)
            if init is None:
                if gv.name.startswith("_ZTI") or gv.name.startswith("_ZTV"):
                    o.size = 1 << 20
                else:
                    o.base = ("undef",)
                    if not gv.ty.size:
                        o.size = 1 << 20
                    if gv.name == "__libc_single_threaded":
                        # contracts are sequential: reference counts take the plain path
                        o.layers[-1][1][0] = (1, 1)
                        self.assumed.add("sequential: reference counts are not contended")
                    else:
                        self.assumed.add("external global " + gv.name)
            else:
                o.base = ("zero",)
                self.init_const(st, o, 0, init)
        return gid

    def init_const(self, st, o, off, c):
        k = c.kind
        ty = c.ty
        if k in ("zero", "null", "undef"):
            if k == "null":
                o.layers[-1][1][off] = (8, NULL)
            return
        if k == "agg":
            if ty.kind == "struct":
                for i, e in enumerate(c.v):
                    self.init_const(st, o, off + ty.offsets[i], e)
            else:
                sz = ty.elt.size
                for i, e in enumerate(c.v):
                    self.init_const(st, o, off + i * sz, e)
            return
        v = self.constval(st, c)
        o.layers[-1][1][off] = (ty.store, v)

    def constval(self, st, c):
        k = c.kind
        if k == "int":
            return c.v
        if k == "fp":
            return fpconst(c.v, c.ty.kind)
        if k == "null":
            return NULL
        if k == "fn":
            return Ptr(c.v, 0)
        if k == "global":
            return Ptr(self.global_obj(st, c.v), 0)
        if k == "zero":
            return self.zero_ty(c.ty)
        if k == "undef":
            return self.undef_ty(c.ty)
        if k == "agg":
            return [self.constval(st, e) for e in c.v]
        if k == "expr":
            ops = c.x["ops"]
            if c.v == "getelementptr":
                b = self.constval(st, ops[0])
                return self.gep(st, b, c.x["src"], [self.constval(st, o) for o in ops[1:]], [o.ty for o in ops[1:]])
            if c.v in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
                v = self.constval(st, ops[0])
                if c.v == "inttoptr" and isint(v):
                    return Ptr(None, v)
                return v
            if c.v in ("add", "sub", "xor", "mul"):
                return self.binop(st, c.v, self.constval(st, ops[0]), self.constval(st, ops[1]), c.ty)
            if c.v == "icmp":
                return self.icmp(st, c.x["pred"], self.constval(st, ops[0]), self.constval(st, ops[1]), ops[0].ty)
        raise Unsupported(f"constant {k} {c.v}")

    def zero_ty(self, ty):
        k = ty.kind
        if k == "int":
            return 0
        if k in FPW:
            return fpconst(0.0, k)
        if k == "ptr":
            return NULL
        if k == "struct":
            return [self.zero_ty(e) for e in ty.elts]
        if k in ("array", "vector"):
            return [self.zero_ty(ty.elt) for _ in range(ty.n)]
        raise Unsupported("zero " + k)

    def undef_ty(self, ty):
        return self.fresh_ty("undef", ty)

    def as_bv(self, v, n, st=None):
        """value -> bit vector (or int) of n bytes"""
        w = 8 * n
        if isint(v):
            return v
        if isinstance(v, BitVecRef):
            if v.size() < w:
                return ZeroExt(w - v.size(), v)
            return v
        if isinstance(v, BoolRef):
            return If(v, BitVecVal(1, w), BitVecVal(0, w))
        if isinstance(v, Ptr):
            return self.ptr_int(st, v)
        if isinstance(v, list):
            # vector, elements little endian
            parts = []
            ew = w // len(v)
            for e in v:
                parts.append(bv(self.as_bv(e, ew // 8, st), ew))
            return simp(Concat(*reversed(parts))) if len(parts) > 1 else parts[0]
        if is_fp(v):
            b = fp_bits(v)
            if b is not None:
                return simp(b)
            s = v.sort()
            if s == F80:
                f = self.fresh("f80bits", w)
                return f
            f = self.fpbits.get(v.get_id())
            if f is None:
                f = (self.fresh("fpbits", w), v)
                self.fpbits[v.get_id()] = f
            f = f[0]
            c = fpBVToFP(f, s) == v
            if not any(c.get_id() == x.get_id() for x in st.pc[-20:]):
                st.pc.append(c)
            return f
        raise Unsupported("as_bv %r" % (v,))

    def ptr_int(self, st, p):
        if p.obj is None:
            return p.off
        k = p.obj if isint(p.obj) else "fn_" + p.obj.name
        a = st.addrs.get(k)
        if a is None:
            a = BitVec(f"addr_{k}", 64)
            st.addrs[k] = a
            st.pc.append(And(UGT(a, 4096), ULT(a, BitVecVal(1 << 47, 64)), Extract(3, 0, a) == 0))
        if isint(p.off):
            return a + p.off if p.off else a
        return a + p.off

    def from_raw(self, st, v, ty):
        """raw cell value -> value of LLVM type ty"""
        k = ty.kind
        if k == "int":
            w = ty.width
            if isinstance(v, Ptr):
                if w == 64:
                    return v
                v = self.ptr_int(st, v)
            elif not isint(v) and not isinstance(v, (BitVecRef, BoolRef)):
                v = self.as_bv(v, (w + 7) // 8, st)
            if isint(v):
                return v & ((1 << w) - 1)
            if isinstance(v, BoolRef):
                return v if w == 1 else bv(v, w)
            if w == 1:
                return simp(Extract(0, 0, v) == 1)
            if v.size() > w:
                return simp(Extract(w - 1, 0, v))
            return v
        if k in FPW:
            if is_fp(v) and v.sort() == SORT[k]:
                return v
            if k == "x86_fp80":
                raise Unsupported("f80 from bits")
            b = self.as_bv(v, FPW[k] // 8, st)
            b = bv(b, FPW[k])
            if is_bv_value(b):
                return simplify(fpBVToFP(b, SORT[k]))
            return fpBVToFP(b, SORT[k])
        if k == "ptr":
            if isinstance(v, Ptr):
                return v
            if isint(v):
                return Ptr(None, v)
            return v  # symbolic integer used as pointer: handled at use
        if k == "vector":
            ew = ty.elt.width
            if isinstance(v, list) and len(v) == ty.n:
                return [self.from_raw(st, e, ty.elt) for e in v]
            b = self.as_bv(v, ty.store, st)
            if ty.elt.kind == "ptr" or ew == 0:
                raise Unsupported("vector of ptr")
            return [self.from_raw(st, simp(Extract((i + 1) * ew - 1, i * ew, bv(b, ew * ty.n))), ty.elt) for i in range(ty.n)]
        raise Unsupported("from_raw " + k)

    def bounds(self, st, p, n, what):
        """in-bounds obligation; n int or BV"""
        if isinstance(p, BitVecRef):
            p = self.resolve_ptr(st, p)
        if p.obj is None:
            self.oblige(st, BoolVal(False), "memory", f"{what} through null/invalid pointer")
            raise PathEnd()
        if not isint(p.obj):
            self.oblige(st, BoolVal(False), "memory", f"{what} through function pointer")
            raise PathEnd()
        o = st.objs.get(p.obj)
        if o is None:
            raise Unsupported("dangling object")
        if o.freed:
            self.oblige(st, BoolVal(False), "memory", f"{what} after free of {o.name}")
            raise PathEnd()
        off = p.off
        if not isint(off):
            off = simp(off)
            p = Ptr(p.obj, off)
        if isint(off) and isint(n) and isint(o.size):
            if off + n > o.size or off < 0:
                self.oblige(st, BoolVal(False), "memory", f"{what} in bounds of {o.name}")
                raise PathEnd()
            return p
        sz = bv(o.size, 64)
        nn = bv(n, 64)
        oo = bv(off, 64)
        c = And(ULE(nn, sz), ULE(oo, sz - nn))
        self.oblige(st, c, "memory", f"{what} in bounds of {o.name}")
        return p

    def resolve_ptr(self, st, e):
        """a bit vector used as a pointer: addr_k + off"""
        e = simplify(e)
        k = self.concr_get(st, e)
        if k is not None:
            return Ptr(None, k)
        # look for a single addr_ symbol as an addend
        terms = []

        def flat(x):
            if x.decl().kind() == z3.Z3_OP_BADD:
                for a in x.children():
                    flat(a)
            else:
                terms.append(x)
        flat(e)
        for i, t in enumerate(terms):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("addr_"):
                nm = t.decl().name()[5:]
                if nm.isdigit():
                    rest = terms[:i] + terms[i + 1:]
                    off = BitVecVal(0, 64)
                    for r in rest:
                        off = off + r
                    return Ptr(int(nm), simp(off))
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c = self.decide(st, e.arg(0))
            return self.resolve_ptr(st, e.arg(1) if c else e.arg(2))
        # pointer taken apart and put back together bytewise: recognise
        # addr_k + d when the difference provably has one value
        syms = {}
        todo, seen = [e], set()
        while todo and len(seen) < 200:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
                nm = x.decl().name()
                if nm.startswith("addr_") and nm[5:].isdigit():
                    syms[int(nm[5:])] = x
            todo.extend(x.children())
        for i, t in enumerate(terms):
            if t.decl().kind() != z3.Z3_OP_CONCAT:
                continue
            for k, a in syms.items():
                s_ = z3.Solver()
                s_.set("timeout", 2000)
                if s_.check() != sat:
                    continue
                d = s_.model().eval(t - a, True)
                s_.add(t - a != d)
                if s_.check() == unsat:
                    off = simplify(d)
                    for r in terms[:i] + terms[i + 1:]:
                        off = off + r
                    return Ptr(k, simp(off))
        # arbitrary integer as pointer
        if not self.feasible(st, e != 0):
            return NULL
        raise Unsupported("integer used as pointer: " + str(e)[:200])

    def concr_get(self, st, e):
        r = st.concr.get(e.get_id())
        return None if r is None else r[1]

    def decide(self, st, cond):
        """truth value of a condition on this path; forks when both are possible"""
        if isint(cond):
            return bool(cond)
        if isinstance(cond, BitVecRef):
            cond = cond == 1
        c = simplify(cond)
        if is_true(c):
            return True
        if is_false(c):
            return False
        k = self.concr_get(st, c)
        if k is not None:
            return k
        raise Fork([(c, c, True), (Not(c), c, False)])

    def concretize(self, st, e, what, limit=80):
        """value of a bit vector on this path; forks over all feasible values"""
        if isint(e):
            return e
        e = simplify(e)
        if is_bv_value(e):
            return e.as_long()
        k = self.concr_get(st, e)
        if k is not None:
            return k
        vals = []
        extra = []
        while True:
            r, m = self.check(st.pc, extra, self.quick_timeout, True)
            if r == unsat:
                break
            if r == unknown or m is None:
                # the values allowed by what is assumed about these variables alone
                own = vars_of(e)
                s = SimpleSolver()
                s.set("timeout", self.quick_timeout)
                for x in [c for c in list(self.axioms) + list(st.pc) if vars_of(c) <= own] + extra:
                    s.add(x)
                r = s.check()
                if r == unsat:
                    break
                if r == unknown:
                    raise Unsupported("concretize unknown: " + what)
                m = s.model()
            v = m.eval(e, True).as_long()
            vals.append(v)
            extra.append(e != v)
            if len(vals) > limit:
                raise Unsupported("too many values: " + what)
        if not vals:
            raise PathEnd()
        raise Fork([(e == v, e, v) for v in sorted(vals)])

    # -- reading
    def cells_read(self, cells, off, n):
        """(kind, value): 'hit' exact, 'miss' nothing overlaps, 'part' overlap"""
        c = cells.get(off)
        if c is not None and c[0] == n:
            return "hit", c[1]
        for k in range(off - 31, off + n):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                return "part", None
        return "miss", None

    def byte_of(self, st, v, n, i):
        b = self.as_bv(v, n, st)
        if isint(b):
            return (b >> (8 * i)) & 255
        return simp(Extract(8 * i + 7, 8 * i, b))

    def big_cell(self, cells, off):
        for k in range(off - 31, off + 1):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                return k, c
        return None

    def read(self, st, oid, off, n, li=None):
        """raw value of n bytes at off (int or BV); bounds already checked"""
        o = st.objs[oid]
        if li is None:
            li = len(o.layers) - 1
        return self.read_l(st, o, o.layers, li, o.base, off, n)

    def aligned(self, off, n):
        if isint(off):
            return off % n == 0
        if n == 1:
            return True
        if n & (n - 1):
            return False
        l = n.bit_length() - 1
        e = simplify(Extract(l - 1, 0, off))
        return is_bv_value(e) and e.as_long() == 0

    def cat(self, parts, st):
        """little-endian byte list -> int/BV"""
        if all(isint(p) for p in parts):
            r = 0
            for i, p in enumerate(parts):
                r |= p << (8 * i)
            return r
        if len(parts) == 1:
            return parts[0]
        return simp(Concat(*[bv(p, 8) for p in reversed(parts)]))

    def read_l(self, st, o, layers, li, base, off, n):
        if li < 0:
            return self.read_base(st, o, base, off, n)
        L = layers[li]
        kind = L[0]
        if kind == "cells":
            cells = L[1]
            if not cells:
                return self.read_l(st, o, layers, li - 1, base, off, n)
            if isint(off):
                r, v = self.cells_read(cells, off, n)
                if r == "hit":
                    return v
                if r == "miss":
                    v = self.read_l(st, o, layers, li - 1, base, off, n)
                    if li == len(layers) - 1 and (base[0] == "undef") and li == 0:
                        # remember the choice made for uninitialised memory
                        w = st.wobj(o.id) if o.id in st.objs else None
                        if w is not None and w.layers[-1][0] == "cells" and len(w.layers) == 1:
                            w.layers[-1][1][off] = (n, v)
                    return v
                if n == 1:
                    k, c = self.big_cell(cells, off)
                    return self.byte_of(st, c[1], c[0], off - k)
                bc = self.big_cell(cells, off)
                if bc is not None:
                    k, c = bc
                    if isinstance(c[1], list) and c[0] % len(c[1]) == 0:
                        es = c[0] // len(c[1])
                        if n == es and (off - k) % es == 0 and off + n <= k + c[0]:
                            return c[1][(off - k) // es]
                        if n % es == 0 and (off - k) % es == 0 and off + n <= k + c[0]:
                            i0 = (off - k) // es
                            return c[1][i0:i0 + n // es]
                    if off + n <= k + c[0]:
                        b = self.as_bv(c[1], c[0], st)
                        i = off - k
                        if isint(b):
                            return (b >> (8 * i)) & ((1 << (8 * n)) - 1)
                        return simp(Extract(8 * (i + n) - 1, 8 * i, b))
                parts = []
                k = off
                # piecewise: whole cells where possible
                vals = []
                ok = True
                while k < off + n:
                    c = cells.get(k)
                    if c is not None and k + c[0] <= off + n:
                        b = self.as_bv(c[1], c[0], st)
                        vals.append((c[0], b))
                        k += c[0]
                    else:
                        vals.append((1, self.as_bv(self.read_l(st, o, layers, li, base, k, 1), 1, st)))
                        k += 1
                if all(isint(b) for _, b in vals):
                    r = 0
                    sh = 0
                    for s_, b in vals:
                        r |= (b & ((1 << (8 * s_)) - 1)) << sh
                        sh += 8 * s_
                    return r
                if len(vals) == 1:
                    return vals[0][1]
                return simp(Concat(*[bv(b, 8 * s_) for s_, b in reversed(vals)]))
            # symbolic offset over concrete cells
            if any(isinstance(c[1], Ptr) for c in cells.values()) and n > 1:
                ptrcells = [k for k, c in cells.items() if isinstance(c[1], Ptr)]
                if len(cells) <= 4096:
                    raise _Concretize(off)
            if n > 1 and not (self.aligned(off, n) and all(c[0] == n and k % n == 0 for k, c in cells.items())):
                # cells of smaller/larger size: is everything a multiple?
                parts = [self.as_bv(self.read_l(st, o, layers, li, base, self.addoff(off, i), 1), 1, st) for i in range(n)]
                return self.cat(parts, st)
            if len(cells) > 2048:
                raise _Concretize(off)
            below = None
            if base[0] in ("zero", "undef") and li == 0 and isint(o.size) and sum(c[0] for c in cells.values()) >= o.size:
                pass
            else:
                below = self.read_l(st, o, layers, li - 1, base, off, n)
                below = bv(self.as_bv(below, n, st), 8 * n)
            groups = {}
            for k, c in cells.items():
                if n == 1 and c[0] > 1:
                    for i in range(c[0]):
                        v = self.byte_of(st, c[1], c[0], i)
                        self._grp(groups, k + i, v)
                else:
                    self._grp(groups, k, self.as_bv(c[1], n, st))
            e = below
            gl = sorted(groups.values(), key=lambda g: -len(g[1]))
            if e is None:
                e = bv(gl[0][0], 8 * n)
                gl = gl[1:]
            for v, ks in gl:
                e = If(Or([off == k for k in ks]) if len(ks) > 1 else off == ks[0], bv(v, 8 * n), e)
            return e
        if kind == "st":
            _, so, sn, sv = L
            d = simp(bv(off, 64) - bv(so, 64))
            if isint(d):
                if d == 0 and sn == n:
                    return sv
                ds = sgn(d, 64)
                if ds >= sn or ds <= -n:
                    return self.read_l(st, o, layers, li - 1, base, off, n)
            elif sn == n and self.aligned(off, n) and self.aligned(so, n):
                below = self.read_l(st, o, layers, li - 1, base, off, n)
                if isinstance(sv, Ptr) or isinstance(below, Ptr):
                    raise Unsupported("pointer in symbolic store")
                if is_fp(sv):
                    if fp_bits(sv) is None and is_fp(below) is False:
                        below = fpBVToFP(bv(self.as_bv(below, n, st), 8 * n), sv.sort())
                        return If(bv(off, 64) == bv(so, 64), sv, below)
                    if is_fp(below) and fp_bits(sv) is None:
                        return If(bv(off, 64) == bv(so, 64), sv, below)
                return If(bv(off, 64) == bv(so, 64), bv(self.as_bv(sv, n, st), 8 * n), bv(self.as_bv(below, n, st), 8 * n))
            if n > 1:
                parts = [self.as_bv(self.read_l(st, o, layers, li, base, self.addoff(off, i), 1), 1, st) for i in range(n)]
                return self.cat(parts, st)
            below = bv(self.as_bv(self.read_l(st, o, layers, li - 1, base, off, 1), 1, st), 8)
            b = self.as_bv(sv, sn, st)
            e = below
            rel = bv(off, 64) - bv(so, 64)
            for i in range(sn):
                bi = (b >> (8 * i)) & 255 if isint(b) else Extract(8 * i + 7, 8 * i, b)
                e = If(rel == i, bv(bi, 8), e)
            return simp(e)
        if kind == "cp":
            _, do, ln, snap, so = L
            # bytes [do, do+ln) come from the snapshot of another object
            rel = simp(bv(off, 64) - bv(do, 64))
            lnv = bv(ln, 64)
            relv = bv(rel, 64)
            fullin = simp(And(ULT(relv, lnv), ULE(BitVecVal(n, 64), lnv - relv)))
            full_ = self.quick_truth(st, fullin)
            if full_ is True:
                return self.read_snap(st, snap, self.addoff2(so, rel), n)
            # entirely outside?
            if n == 1:
                inn = tobool(fullin)
                below = bv(self.as_bv(self.read_l(st, o, layers, li - 1, base, off, 1), 1, st), 8)
                src = bv(self.as_bv(self.read_snap(st, snap, self.addoff2(so, rel), 1), 1, st), 8)
                return simp(If(inn, src, below))
            outside = Or(UGE(relv, lnv), False) if n == 1 else And(UGE(relv, lnv), ULE(relv, BitVecVal((1 << 64) - n, 64)))
            if self.quick_truth(st, simp(outside)) is True:
                return self.read_l(st, o, layers, li - 1, base, off, n)
            if n > 1 and self.aligned(off, n) and self.aligned(do, n) and self.aligned(ln, n):
                below = bv(self.as_bv(self.read_l(st, o, layers, li - 1, base, off, n), n, st), 8 * n)
                src = bv(self.as_bv(self.read_snap(st, snap, self.addoff2(so, rel), n), n, st), 8 * n)
                return simp(If(ULT(relv, lnv), src, below))
            parts = [self.as_bv(self.read_l(st, o, layers, li, base, self.addoff(off, i), 1), 1, st) for i in range(n)]
            return self.cat(parts, st)
        if kind == "set":
            _, do, ln, val = L
            relv = bv(simp(bv(off, 64) - bv(do, 64)), 64)
            lnv = bv(ln, 64)
            fullin = simp(And(ULT(relv, lnv), ULE(BitVecVal(n, 64), lnv - relv)))
            t = self.quick_truth(st, fullin)
            if t is True:
                return self.cat([val] * n, st)
            if n == 1:
                below = bv(self.as_bv(self.read_l(st, o, layers, li - 1, base, off, 1), 1, st), 8)
                return simp(If(tobool(fullin), bv(val, 8), below))
            if self.aligned(off, n) and self.aligned(do, n) and self.aligned(ln, n):
                below = bv(self.as_bv(self.read_l(st, o, layers, li - 1, base, off, n), n, st), 8 * n)
                return simp(If(ULT(relv, lnv), bv(self.cat([val] * n, st), 8 * n), below))
            parts = [self.as_bv(self.read_l(st, o, layers, li, base, self.addoff(off, i), 1), 1, st) for i in range(n)]
            return self.cat(parts, st)
        raise Unsupported("layer " + kind)

    def quick_truth(self, st, c):
        if isint(c):
            return bool(c)
        if self.check(st.pc, [Not(c)], 500)[0] == unsat:
            return True
        return None

    def read_snap(self, st, snap, off, n):
        o, layers, base = snap
        return self.read_l(st, o, layers, len(layers) - 1, base, off, n)

    def _grp(self, groups, k, v):
        key = ("i", v) if isint(v) else ("e", v.get_id())
        g = groups.get(key)
        if g is None:
            groups[key] = (v, [k])
        else:
            g[1].append(k)

    def addoff(self, off, i):
        if i == 0:
            return off
        if isint(off):
            return off + i
        return simp(off + i)

    def addoff2(self, a, b):
        if isint(a) and isint(b):
            return (a + b) & MASK64
        return simp(bv(a, 64) + bv(b, 64))

    def read_base(self, st, o, base, off, n):
        k = base[0]
        if k == "zero":
            return 0
        if k == "undef":
            if isint(off):
                return self.fresh(f"uninit_{o.name}_{off}", 8 * n)
            # give the object an arbitrary but fixed content
            arr = z3.Array(f"mem_{o.id}_{n}", z3.BitVecSort(64), z3.BitVecSort(8))
            if o.id in st.objs:
                w = st.wobj(o.id)
                w.base = ("arr", arr, 1)
            return self.read_base(st, o, ("arr", arr, 1), off, n)
        if k == "arr":
            _, arr, w = base
            if n == w and self.aligned(off, w):
                idx = off // w if isint(off) else simp(self.divoff(off, w))
                return z3.Select(arr, bv(idx, 64))
            if n > w and n % w == 0 and self.aligned(off, w):
                parts = [self.read_base(st, o, base, self.addoff(off, i), w) for i in range(0, n, w)]
                return simp(Concat(*reversed(parts)))
            if w == 1:
                parts = [z3.Select(arr, bv(self.addoff(off, i), 64)) for i in range(n)]
                return parts[0] if n == 1 else simp(Concat(*reversed(parts)))
            if isint(off):
                if n < w and off // w == (off + n - 1) // w:
                    e = z3.Select(arr, BitVecVal(off // w, 64))
                    i = off % w
                    return simp(Extract(8 * (i + n) - 1, 8 * i, e))
                return self.cat([self.read_base(st, o, base, off + i, 1) for i in range(n)], st)
            if n == 1:
                e = z3.Select(arr, simplify(self.divoff(off, w)))
                m = simplify(URem(off, BitVecVal(w, 64)))
                if is_bv_value(m):
                    i = m.as_long()
                    return simp(Extract(8 * i + 7, 8 * i, e))
                r = Extract(7, 0, e)
                for i in range(1, w):
                    r = If(m == i, Extract(8 * i + 7, 8 * i, e), r)
                return r
            return self.cat([self.read_base(st, o, base, self.addoff(off, i), 1) for i in range(n)], st)
        raise Unsupported("base " + k)

    def divoff(self, off, w):
        if w & (w - 1) == 0:
            return LShR(off, w.bit_length() - 1)
        return UDiv(off, BitVecVal(w, 64))

    def note_write(self, st, oid, off, n, val=None, ty=None):
        if st.writes is not None and oid not in st.newobjs:
            st.writes.append((oid, off if isint(off) else None, n if isint(n) else None, val))

    def write(self, st, oid, off, n, v):
        o = st.wobj(oid)
        self.note_write(st, oid, off, n, v)
        if isint(off):
            if o.layers[-1][0] != "cells":
                o.layers.append(("cells", {}))
            cells = o.layers[-1][1]
            c = cells.get(off)
            if c is None or c[0] != n:
                self.carve(st, o, cells, off, n)
            cells[off] = (n, v)
        else:
            o.layers.append(("st", off, n, v))

    def carve(self, st, o, cells, off, n):
        """remove [off,off+n) from the cells, keeping the remaining bytes of cut cells"""
        for k in range(off - 31, off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            del cells[k]
            if k >= off and k + c[0] <= off + n:
                continue
            val = c[1]
            if isinstance(val, list) and c[0] % len(val) == 0:
                es = c[0] // len(val)
                for i, e in enumerate(val):
                    p = k + i * es
                    if p + es <= off or p >= off + n:
                        cells[p] = (es, e)
                    elif not (p >= off and p + es <= off + n):
                        for j in range(es):
                            if not (off <= p + j < off + n):
                                cells[p + j] = (1, self.byte_of(st, e, es, j))
                continue
            b = self.as_bv(val, c[0], st)
            if k < off:
                m = off - k
                cells[k] = (m, b & ((1 << 8 * m) - 1) if isint(b) else simp(Extract(8 * m - 1, 0, b)))
            if k + c[0] > off + n:
                i = off + n - k
                m = c[0] - i
                cells[off + n] = (m, (b >> (8 * i)) & ((1 << 8 * m) - 1) if isint(b) else simp(Extract(8 * c[0] - 1, 8 * i, b)))

    def load(self, st, p, ty):
        if ty.kind in ("struct", "array"):
            p = self.bounds(st, p, ty.size, "load")
            if ty.kind == "struct":
                return [self.load(st, Ptr(p.obj, self.addoff(p.off, ty.offsets[i])), e) for i, e in enumerate(ty.elts)]
            return [self.load(st, Ptr(p.obj, self.addoff(p.off, i * ty.elt.size)), ty.elt) for i in range(ty.n)]
        n = ty.store
        p = self.bounds(st, p, n, "load")
        try:
            raw = self.read(st, p.obj, p.off, n)
        except _Concretize as c:
            off = self.concretize(st, c.e if not isint(c.e) else p.off, "load offset")
            raw = self.read(st, p.obj, self.concretize(st, p.off, "load offset"), n)
        return self.from_raw(st, raw, ty)

    def store(self, st, p, v, ty):
        if ty.kind in ("struct", "array"):
            if ty.kind == "struct":
                for i, e in enumerate(ty.elts):
                    self.store(st, self.gep_off(st, p, ty.offsets[i]), v[i], e)
            else:
                for i in range(ty.n):
                    self.store(st, self.gep_off(st, p, i * ty.elt.size), v[i], ty.elt)
            return
        n = ty.store
        p = self.bounds(st, p, n, "store")
        if st.objs[p.obj].const:
            self.oblige(st, BoolVal(False), "memory", "store to constant " + st.objs[p.obj].name)
            raise PathEnd()
        off = p.off
        if not isint(off) and (isinstance(v, Ptr) and v.obj is not None):
            off = self.concretize(st, off, "store offset of pointer")
        if ty.kind == "int" and ty.width % 8:
            if isinstance(v, BoolRef):
                v = If(v, BitVecVal(1, 8 * n), BitVecVal(0, 8 * n))
            elif not isint(v):
                v = ZeroExt(8 * n - ty.width, v)
        self.write(st, p.obj, off, n, v)

    def gep_off(self, st, p, k):
        if isinstance(p, BitVecRef):
            return p + k
        return Ptr(p.obj, self.addoff(p.off, k))

    # memcpy family
    def memcpy(self, st, d, s, n):
        n = simp(n)
        if not isint(n):
            k = self.concr_get(st, simplify(n))
            if k is not None:
                n = k
        if isint(n) and n == 0:
            return
        if not isint(n):
            # zero length is allowed with any pointer
            if (isinstance(d, Ptr) and d.obj is None) or (isinstance(s, Ptr) and s.obj is None):
                if self.decide(st, n == 0):
                    return
        s = self.bounds(st, s, n, "memcpy read")
        d = self.bounds(st, d, n, "memcpy write")
        so = st.objs[s.obj]
        if st.objs[d.obj].const:
            self.oblige(st, BoolVal(False), "memory", "memcpy to constant")
            raise PathEnd()
        # a source holding pointers must be copied cell by cell
        hasptr = any(l[0] == "cells" and any(isinstance(c[1], Ptr) for c in l[1].values()) for l in so.layers)
        if hasptr and not isint(n):
            n = self.concretize(st, n, "memcpy length")
            if n == 0:
                return
        if hasptr and not isint(s.off):
            s = Ptr(s.obj, self.concretize(st, s.off, "memcpy src"))
        if hasptr and not isint(d.off):
            d = Ptr(d.obj, self.concretize(st, d.off, "memcpy dst"))
        if isint(n) and isint(s.off) and isint(d.off) and n <= 4096:
            # cellwise
            vals = []
            off = s.off
            end = s.off + n
            top = so.layers[-1][1] if so.layers[-1][0] == "cells" else {}
            while off < end:
                c = top.get(off)
                if c is not None and off + c[0] <= end:
                    vals.append((off - s.off, c[0], c[1]))
                    off += c[0]
                    continue
                m = self.chunk(so, top, off, end)
                if m == 0:
                    off += -self.gap(top, off, end) if False else 1
                    vals.append((off - 1 - s.off, 1, self.read(st, s.obj, off - 1, 1)))
                    continue
                if len(so.layers) == 1 and so.base[0] == "undef" and self.gap(top, off, end) >= end - off:
                    # uninitialised tail: copy nothing (destination keeps arbitrary content)
                    vals.append((off - s.off, None, end - off))
                    break
                vals.append((off - s.off, m, self.read(st, s.obj, off, m)))
                off += m
            do = st.wobj(d.obj)
            for rel, m, v in vals:
                if m is None:
                    if do.layers[-1][0] != "cells":
                        do.layers.append(("cells", {}))
                    self.note_write(st, d.obj, d.off + rel, v, None)
                    for j in range(0, v):
                        self.carve(st, do, do.layers[-1][1], d.off + rel + j, 1)
                    if not (len(do.layers) == 1 and do.base[0] == "undef"):
                        for j in range(v):
                            do.layers[-1][1][d.off + rel + j] = (1, self.fresh("uninit", 8))
                else:
                    self.write(st, d.obj, d.off + rel, m, v)
            return
        # lazy range copy
        snap = (so, [(l[0], dict(l[1])) if l[0] == "cells" else l for l in so.layers], so.base)
        if so.base[0] == "undef":
            arr = z3.Array(f"mem_{so.id}_1", z3.BitVecSort(64), z3.BitVecSort(8))
            w = st.wobj(s.obj)
            w.base = ("arr", arr, 1)
            snap = (w, snap[1], w.base)
        do = st.wobj(d.obj)
        self.note_write(st, d.obj, None, None)
        do.layers.append(("cp", d.off, n, snap, s.off))

    def chunk(self, so, top, off, end):
        g = self.gap(top, off, end)
        if g == 0:
            return 0
        w = so.base[2] if so.base[0] == "arr" else 8
        m = min(g, w)
        while m > 1 and (m & (m - 1) or off % m):
            m -= 1
        return m

    def gap(self, top, off, end):
        g = 0
        # bytes until the next cell (or 0 when inside one)
        if self.big_cell(top, off):
            return 0
        while off + g < end and (off + g) not in top:
            g += 1
        return g

    def memset(self, st, d, val, n):
        n = simp(n)
        if isint(n) and n == 0:
            return
        if not isint(n) and isinstance(d, Ptr) and d.obj is None:
            if self.decide(st, n == 0):
                return
        d = self.bounds(st, d, n, "memset")
        val = simp(val) if not isint(val) else val
        if isint(n) and isint(d.off) and n <= 256:
            off = d.off
            end = off + n
            while off < end:
                m = 8
                while off % m or off + m > end:
                    m //= 2
                self.write(st, d.obj, off, m, self.cat([val] * m, st))
                off += m
            return
        o = st.wobj(d.obj)
        self.note_write(st, d.obj, None, None)
        if isint(n) and isint(d.off) and isint(o.size) and d.off == 0 and n == o.size and isint(val) and val == 0:
            o.base = ("zero",)
            o.layers = [("cells", {})]
            return
        o.layers.append(("set", d.off, n, val))

    # ------------------------------------------------------------------ expressions
    def gep(self, st, base, src, idx, tys):
        off = 0
        ty = src
        for k, i in enumerate(idx):
            if k == 0:
                sz = ty.size
            elif ty.kind == "struct":
                off = self.addoff2(off, ty.offsets[i])
                ty = ty.elts[i]
                continue
            else:
                ty = ty.elt
                sz = ty.size
            w = tys[k].width
            if isinstance(i, Ptr):
                i = self.ptr_int(st, i)
            if isint(i):
                d = (sgn(i, w) * sz) & MASK64
            else:
                ii = bv(i, w)
                if w < 64:
                    ii = SignExt(64 - w, ii)
                d = ii * sz if sz != 1 else ii
            off = self.addoff2(off, d)
        if isinstance(base, BitVecRef):
            return simp(base + bv(off, 64))
        return Ptr(base.obj, self.addoff2(base.off, off))

    def binop(self, st, op, a, b, ty):
        if ty.kind == "vector":
            return [self.binop(st, op, x, y, ty.elt) for x, y in zip(a, b)]
        if op[0] == "f" and ty.kind in FPW:
            return self.fbin(st, op, a, b, ty.kind)
        w = ty.width
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj or \
                    op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if isint(a.off) and isint(b.off):
                    return (a.off - b.off) & MASK64
                return simp(bv(a.off, 64) - bv(b.off, 64))
            if op in ("add", "sub") and isinstance(a, Ptr) and not isinstance(b, Ptr):
                if isint(a.off) and isint(b):
                    return Ptr(a.obj, (a.off + (b if op == "add" else -b)) & MASK64)
                return Ptr(a.obj, simp(bv(a.off, 64) + bv(b, 64) if op == "add" else bv(a.off, 64) - bv(b, 64)))
            if op == "add" and isinstance(b, Ptr) and not isinstance(a, Ptr):
                return self.binop(st, op, b, a, ty)
            if op == "and" and isinstance(a, Ptr) and isint(b) and b in (1, 3, 7, 15) and isint(a.off):
                return a.off & b
            if op == "and" and isinstance(a, Ptr) and isint(b) and isint(a.off) and ((~b) & MASK64) in (1, 3, 7, 15):
                return Ptr(a.obj, a.off & b)
            if isinstance(a, Ptr):
                a = self.ptr_int(st, a)
            if isinstance(b, Ptr):
                b = self.ptr_int(st, b)
        m = (1 << w) - 1
        if isint(a) and isint(b):
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sgn(a, w) >> b) & m if b < w else 0
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    self.oblige(st, BoolVal(False), "ub", "division by zero")
                    raise PathEnd()
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == "sdiv" else x - q * y) & m
        if w == 1:
            x, y = tobool(a), tobool(b)
            if op == "and" or op == "mul":
                return simp(And(x, y))
            if op == "or":
                return simp(Or(x, y))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(x, y))
            raise Unsupported("i1 " + op)
        # identities
        if isint(b):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if b == 0 and op in ("mul", "and"):
                return 0
            if b == m and op == "and":
                return a
        if isint(a):
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("mul", "and", "shl", "lshr", "ashr"):
                return 0
            if a == 1 and op == "mul":
                return b
        x, y = bv(a, w), bv(b, w)
        if op == "add":
            return x + y
        if op == "sub":
            if x.eq(y):
                return 0
            return x - y
        if op == "mul":
            return x * y
        if op == "and":
            return x & y
        if op == "or":
            return x | y
        if op == "xor":
            if x.eq(y):
                return 0
            return x ^ y
        if op == "shl":
            return x << y
        if op == "lshr":
            return LShR(x, y)
        if op == "ashr":
            return x >> y
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not isint(b):
                self.oblige(st, y != 0, "ub", "division by zero")
            if not isint(b) and w >= 32 and op in ("srem", "urem"):
                return self.rem_abs(x, y, w, op == "srem")
            if op[0] == "s" and not (isint(b) and b != m):
                self.oblige(st, Not(And(x == BitVecVal(1 << (w - 1), w), y == BitVecVal(m, w))), "ub", "signed division overflow")
            return {"udiv": lambda: UDiv(x, y), "urem": lambda: URem(x, y), "sdiv": lambda: x / y, "srem": lambda: SRem(x, y)}[op]()
        raise Unsupported(op)

    # -- dyadic shadow: a floating-point value known, on this path, to be exactly x * 2^-k
    def dy_shape(self, st, e):
        """could e have a dyadic shadow? (no queries)"""
        if ("dy", e.get_id()) in st.concr:
            return True
        if is_concrete_fp(e):
            return True
        return self.int_source(e) is not None

    def int_source(self, e):
        """x when e is the conversion of the integer x"""
        d = e.decl()
        if d.kind() == z3.Z3_OP_FPA_TO_FP and e.num_args() == 2 and is_bv(e.arg(1)):
            return SignExt(72 - e.arg(1).size(), e.arg(1)) if e.arg(1).size() <= 72 else None
        if d.kind() == z3.Z3_OP_FPA_TO_FP_UNSIGNED and e.num_args() == 2:
            return ZeroExt(72 - e.arg(1).size(), e.arg(1)) if e.arg(1).size() < 72 else None
        return None

    def within(self, st, x, p):
        """is |x| <= 2^p on this path"""
        x = simplify(x)
        w = x.size()
        if p >= w - 1:
            return True
        if is_bv_value(x):
            return abs(x.as_signed_long()) <= 1 << p
        return self.valid_quick(st, And(x <= BitVecVal(1 << p, w), x >= BitVecVal(-(1 << p), w)))

    def dyadic(self, st, e):
        """(x: 72 bit integer, k) with e == x * 2^-k exactly on this path, or None"""
        key = ("dy", e.get_id())
        c = st.concr.get(key)
        if c is not None:
            return c[1]
        P = {24: 24, 53: 53}.get(e.sort().sbits())
        r = None
        if P is None:
            pass
        elif is_concrete_fp(e):
            v = fpfloat(e)
            if v is not None and not math.isinf(v) and not math.isnan(v) and not (v == 0 and math.copysign(1, v) < 0):
                m, d = v.as_integer_ratio()
                k = d.bit_length() - 1
                while k == 0 and m and m % 2 == 0 and abs(m) > 1 << P:
                    m //= 2
                    k -= 1
                if k >= 0 and k <= 16 and abs(m) <= 1 << P:
                    r = (BitVecVal(m, 72), k)
        else:
            x = self.int_source(e)
            if x is not None and self.within(st, x, P):
                r = (x, 0)
        st.concr[key] = (e, r)
        return r

    def dy_make(self, st, x, k, S):
        """the floating-point value x * 2^-k; the caller has shown that it is exact"""
        x = simplify(x)
        if is_bv_value(x):
            return fpconst(math.ldexp(x.as_signed_long(), -k), {24: "float", 53: "double"}[S.sbits()])
        e = fpSignedToFP(rne, simplify(Extract(63, 0, x)), S)
        if k:
            e = z3.fpMul(rne, e, FPVal(math.ldexp(1.0, -k), S))
        st.concr[("dy", e.get_id())] = (e, (x, k))
        return e

    def dy_align(self, st, a, b):
        (x, i), (y, j) = a, b
        K = max(i, j)
        if K - i > 16 or K - j > 16:
            return None
        return simplify(x << (K - i)), simplify(y << (K - j)), K

    def dy_bin(self, st, op, a, b):
        if not (self.dy_shape(st, a) and self.dy_shape(st, b)):
            return None
        P = {24: 24, 53: 53}.get(a.sort().sbits())
        if P is None:
            return None
        da = self.dyadic(st, a)
        db = self.dyadic(st, b) if da is not None else None
        if da is None or db is None:
            return None
        if op in ("fadd", "fsub"):
            al = self.dy_align(st, da, db)
            if al is None:
                return None
            x, y, K = al
            z = simplify(x + y if op == "fadd" else x - y)
            return self.dy_make(st, z, K, a.sort()) if self.within(st, z, P) else None
        if op == "fmul":
            if not is_concrete_fp(a) and not is_concrete_fp(b):
                return None
            if is_concrete_fp(a):
                da, db = db, da
            x, c, k = da[0], db[0].as_signed_long(), da[1] + db[1]
        elif op == "fdiv":
            if not is_concrete_fp(b):
                return None
            v = fpfloat(b)
            if v <= 0:
                return None
            m, d = v.as_integer_ratio()
            if m & (m - 1):
                return None
            x, c, k = da[0], 1, da[1] + (m.bit_length() - 1) - (d.bit_length() - 1)
        else:
            return None
        if c == 0:
            return None
        if c < 0 and not self.valid_quick(st, x != 0):
            return None
        z = x * BitVecVal(c, 72)
        if k < 0:
            if k < -16:
                return None
            z = z << (-k)
            k = 0
        if k > 24:
            return None
        bound = P - (abs(c) - 1).bit_length()
        if bound < 0 or not self.within(st, x, bound) or not self.within(st, z, P):
            return None
        return self.dy_make(st, z, k, a.sort())

    def fbin(self, st, op, a, b, kind):
        if is_concrete_fp(a) and is_concrete_fp(b) and op != "frem":
            return simplify({"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](rne, a, b))
        if op in ("fmul", "fdiv") and is_concrete_fp(b) and fpfloat(b) == 1.0:
            return a
        if op == "fmul" and is_concrete_fp(a) and fpfloat(a) == 1.0:
            return b
        if self.fpabs == 2 and op != "frem" and kind in SORT:
            # any function of the bits of the operands (commutative for + and *)
            w = 64 if kind in ("double", "f64") else 32
            x, y = bv(self.as_bv(a, w // 8, st), w), bv(self.as_bv(b, w // 8, st), w)
            if op in ("fadd", "fmul") and x.get_id() > y.get_id():
                x, y = y, x
            V = z3.BitVecSort(w)
            r = z3.Function("bits_%s_%s" % (op, kind), V, V, V)(x, y)
            # with the identities of IEEE 754 arithmetic
            inf = 0x7FF << 52 if w == 64 else 0xFF << 23
            one = 0x3FF << 52 if w == 64 else 0x7F << 23
            top = 1 << (w - 1)
            mag = lambda z: z & BitVecVal(top - 1, w)
            number = lambda z: ULE(mag(z), BitVecVal(inf, w))
            same = lambda p, z: And(p, number(z))
            if op == "fmul":
                r = If(same(y == one, x), x, If(same(x == one, y), y, r))
            elif op == "fdiv":
                r = If(same(y == one, x), x, r)
            elif op == "fadd":
                r = If(same(y == top, x), x, If(same(x == top, y), y, If(same(And(y == 0, x != top), x), x, If(same(And(x == 0, y != top), y), y, r))))
            elif op == "fsub":
                r = If(same(y == 0, x), x, If(And(x == y, ULT(mag(x), BitVecVal(inf, w))), BitVecVal(0, w), r))
            return fpBVToFP(simplify(r), SORT[kind])
        r = self.dy_bin(st, op, a, b)
        if r is not None:
            return r
        if op == "fadd":
            r = z3.fpAdd(rne, a, b)
        elif op == "fsub":
            r = z3.fpSub(rne, a, b)
        elif op == "fmul":
            r = self.fp_abs(st, op, a, b, kind) if self.fpabs else z3.fpMul(rne, a, b)
        elif op == "fdiv":
            r = self.fp_abs(st, op, a, b, kind) if self.fpabs else z3.fpDiv(rne, a, b)
        elif op == "frem":
            return self.fmod(st, a, b, kind)
        else:
            raise Unsupported(op)
        return r

    def fp_abs(self, st, op, a, b, kind):
        """product / quotient of symbolic floating-point values: uninterpreted, with valid lemmas of IEEE 754
        round-to-nearest arithmetic; the exact definition is kept to confirm counterexamples"""
        S = SORT[kind]
        f = z3.Function(op + "_" + kind, S, S, S)
        r = f(a, b)
        key = (op, a.get_id(), b.get_id())
        if key in self.rem_seen:
            return r
        self.rem_seen.add(key)
        self.symkeep[key] = r
        L, G, EQ = z3.fpLEQ, z3.fpGEQ, z3.fpEQ
        z, one = FPVal(0.0, S), FPVal(1.0, S)
        fin = lambda x: And(Not(z3.fpIsNaN(x)), Not(z3.fpIsInf(x)))
        both = And(fin(a), fin(b))
        ax = lambda p, q: self.axiom(z3.Implies(p, q))
        nan = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        ax(nan, z3.fpIsNaN(r))
        if op == "fmul":
            self.defs.append(r == z3.fpMul(rne, a, b))
            ax(both, Not(z3.fpIsNaN(r)))
            ax(And(both, Or(And(G(a, z), G(b, z)), And(L(a, z), L(b, z)))), G(r, z))
            ax(And(both, Or(And(L(a, z), G(b, z)), And(G(a, z), L(b, z)))), L(r, z))
            for x, y in ((a, b), (b, a)):
                ax(And(both, G(x, z), G(y, z), L(y, one)), L(r, x))
                ax(And(both, L(x, z), G(y, z), L(y, one)), G(r, x))
                ax(And(both, G(x, z), G(y, one)), G(r, x))
                ax(And(both, L(x, z), G(y, one)), L(r, x))
                ax(And(both, EQ(x, z)), EQ(r, z))
                ax(EQ(x, one), r == y)
        else:
            self.defs.append(r == z3.fpDiv(rne, a, b))
            both = And(both, Not(z3.fpIsZero(b)))
            ax(both, Not(z3.fpIsNaN(r)))
            ax(And(both, Or(And(G(a, z), G(b, z)), And(L(a, z), L(b, z)))), G(r, z))
            ax(And(both, Or(And(L(a, z), G(b, z)), And(G(a, z), L(b, z)))), L(r, z))
            ax(And(both, G(a, z), L(a, b)), L(r, one))
            ax(And(both, G(b, z), G(a, b)), G(r, one))
            ax(And(both, L(a, z), G(b, one)), G(r, a))
            ax(And(both, G(a, z), G(b, one)), L(r, a))
            ax(And(both, G(a, z), G(b, z), L(b, one)), G(r, a))
            ax(And(both, L(a, z), G(b, z), L(b, one)), L(r, a))
            ax(And(both, EQ(a, z)), EQ(r, z))
            ax(And(both, EQ(a, b)), EQ(r, one))
            ax(EQ(b, one), r == a)
        for (o, x, y, q, k2) in self.fpprods:
            if o != op or k2 != kind:
                continue
            pairs = [(x, y, a, b)] if op == "fdiv" else [(x, y, a, b), (y, x, a, b), (x, y, b, a), (y, x, b, a)]
            for (m, c, m2, c2) in pairs:
                if c.eq(c2):
                    ok = And(fin(m), fin(m2), fin(c), z3.fpGT(c, z))
                    ax(And(ok, L(m, m2)), L(q, r))
                    ax(And(ok, L(m2, m)), L(r, q))
        self.fpprods.append((op, a, b, r, kind))
        return r

    def fmod(self, st, a, b, kind):
        if is_concrete_fp(a) and is_concrete_fp(b):
            x, y = fpfloat(a), fpfloat(b)
            if x is not None and y is not None and y != 0 and not math.isinf(x) and not math.isinf(y) and kind != "x86_fp80":
                return fpconst(math.fmod(x, y), kind)
        d = self.dy_rem(st, a, b)
        if d is not None:
            x, y, r, K = d
            if not self.valid_quick(st, x >= 0) and self.decide(st, And(r == 0, x < 0)):
                return fpconst(-0.0, kind)
            return self.dy_make(st, SignExt(8, simplify(r)), K, a.sort())
        S = SORT[kind]
        f = z3.Function("fmod_" + kind, S, S, S)
        r = f(a, b)
        zero = fpconst(0.0, kind)
        fin = And(Not(z3.fpIsNaN(a)), Not(z3.fpIsInf(a)), Not(z3.fpIsNaN(b)), Not(z3.fpIsZero(b)))
        st.pc.append(z3.Implies(fin, And(Not(z3.fpIsNaN(r)), z3.fpLT(z3.fpAbs(r), z3.fpAbs(b)), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(a)),
                                         Or(z3.fpIsZero(r), z3.fpIsNegative(r) == z3.fpIsNegative(a)))))
        st.pc.append(z3.Implies(And(fin, z3.fpLT(z3.fpAbs(a), z3.fpAbs(b))), r == a))
        st.pc.append(z3.Implies(Not(fin), z3.fpIsNaN(r)))
        self.assumed.add("fmod axioms: |r|<|b|, |r|<=|a|, sign of a, r=a when |a|<|b|")
        return r

    def dy_rem(self, st, a, b):
        """(x, y, x rem |y|, K) of two dyadic values x*2^-K, y*2^-K with y != 0, or None"""
        if not (self.dy_shape(st, a) and self.dy_shape(st, b)):
            return None
        da = self.dyadic(st, a)
        db = self.dyadic(st, b) if da is not None else None
        if da is None or db is None:
            return None
        al = self.dy_align(st, da, db)
        if al is None:
            return None
        x, y, K = al
        if not self.within(st, x, 62) or not self.within(st, y, 62) or not self.valid_quick(st, y != 0):
            return None
        x, y = simplify(Extract(63, 0, x)), simplify(Extract(63, 0, y))
        y = y if self.valid_quick(st, y > 0) else simplify(If(y < 0, -y, y))
        if is_bv_value(y) or is_bv_value(x):
            r = SRem(x, y)
        else:
            r = self.rem_abs(x, y, 64, True)
        return x, y, r, K

    def fremainder(self, st, a, b, kind):
        """IEEE remainder: a - n*b, n the integer nearest to a/b (even in the middle)"""
        if is_concrete_fp(a) and is_concrete_fp(b):
            x, y = fpfloat(a), fpfloat(b)
            if x is not None and y is not None and y != 0 and not math.isinf(x) and not math.isinf(y) and kind != "x86_fp80":
                return fpconst(math.remainder(x, y), kind)
        S = SORT[kind]
        d = self.dy_rem(st, a, b)
        if d is not None:
            x, y, m, K = d
            # |m| < y; the nearest multiple is at distance min(|m|, y - |m|)
            if self.decide(st, m == 0):
                return fpconst(0.0, kind) if self.decide(st, x >= 0) else fpconst(-0.0, kind)
            am = If(m < 0, -m, m)
            other = If(m < 0, m + y, m - y)
            if self.decide(st, am + am == y):
                even = self.fresh_bool("remainder_even")
                r = If(even, m, other)
            else:
                r = If(am + am < y, m, other)
            return self.dy_make(st, SignExt(8, simplify(r)), K, S)
        f = z3.Function("remainder_" + kind, S, S, S)
        r = f(a, b)
        fin = And(Not(z3.fpIsNaN(a)), Not(z3.fpIsInf(a)), Not(z3.fpIsNaN(b)), Not(z3.fpIsZero(b)))
        two = FPVal(2.0, S)
        ab, ar, aa = z3.fpAbs(b), z3.fpAbs(r), z3.fpAbs(a)
        st.pc.append(z3.Implies(fin, And(Not(z3.fpIsNaN(r)), z3.fpLEQ(ar, aa), z3.fpLEQ(ar, ab),
                                         z3.fpLEQ(z3.fpMul(rne, two, ar), ab))))
        st.pc.append(z3.Implies(And(fin, z3.fpLT(z3.fpMul(rne, two, aa), ab)), r == a))
        st.pc.append(z3.Implies(Not(fin), z3.fpIsNaN(r)))
        self.assumed.add("remainder axioms: 2|r|<=|b|, |r|<=|a|, r=a when 2|a|<|b|")
        return r

    def icmp(self, st, pred, a, b, ty):
        if ty.kind == "vector":
            return [self.icmp(st, pred, x, y, ty.elt) for x, y in zip(a, b)]
        w = ty.width
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = Ptr(None, a)
            if not isinstance(b, Ptr):
                b = Ptr(None, b)
            if a.obj is b.obj or a.obj == b.obj:
                a, b = a.off, b.off
                w = 64
            elif a.obj is None or b.obj is None:
                p, q = (a, b) if a.obj is None else (b, a)
                if pred in ("eq", "ne") and isint(p.off) and (p.off < 4096 or not isint(q.obj) or p.off >= 1 << 47):
                    return 1 if pred == "ne" else 0
                a, b = self.ptr_int(st, a), self.ptr_int(st, b)
                if isint(p.off) and p.off == 0:
                    # null < any object address
                    pass
            else:
                if pred in ("eq", "ne"):
                    # distinct live objects have distinct addresses (one-past-the-end aside)
                    return 1 if pred == "ne" else 0
                self.disjoint(st, a.obj, b.obj)
                a, b = self.ptr_int(st, a), self.ptr_int(st, b)
        if isint(a) and isint(b):
            if pred[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:] if pred[0] in "su" else pred
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p])
        if w == 1:
            x, y = tobool(a), tobool(b)
            if pred == "eq":
                return simp(x == y)
            if pred == "ne":
                return simp(z3.Xor(x, y))
            x, y = bv(x, 1), bv(y, 1)
        else:
            x, y = bv(a, w), bv(b, w)
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: UGT(x, y), "uge": lambda: UGE(x, y),
             "ult": lambda: ULT(x, y), "ule": lambda: ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y,
             "slt": lambda: x < y, "sle": lambda: x <= y}[pred]()
        return simp(r)

    def disjoint(self, st, a, b):
        if not (isint(a) and isint(b)):
            return
        key = ("dis", min(a, b), max(a, b))
        if key in st.concr:
            return
        st.concr[key] = (None, True)
        pa, pb = self.ptr_int(st, Ptr(a, 0)), self.ptr_int(st, Ptr(b, 0))
        sa, sb = bv(st.objs[a].size, 64), bv(st.objs[b].size, 64)
        st.pc.append(And(ULT(sa, BitVecVal(1 << 46, 64)), ULT(sb, BitVecVal(1 << 46, 64)), Or(ULT(pa + sa, pb), ULT(pb + sb, pa))))

    def fcmp(self, pred, a, b, st=None):
        if st is not None and pred not in ("true", "false") and not (is_concrete_fp(a) and is_concrete_fp(b)) \
                and self.dy_shape(st, a) and self.dy_shape(st, b):
            da = self.dyadic(st, a)
            db = self.dyadic(st, b) if da is not None else None
            if db is not None:
                al = self.dy_align(st, da, db)
                if al is not None and self.within(st, al[0], 70) and self.within(st, al[1], 70):
                    x, y, _ = al
                    if pred == "ord":
                        return 1
                    if pred == "uno":
                        return 0
                    return simp({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]])
        if pred == "true":
            return 1
        if pred == "false":
            return 0
        uno = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == "uno":
            r = uno
        elif pred == "ord":
            r = Not(uno)
        else:
            o = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}.get(pred[1:])
            if o is not None:
                r = o(a, b)
                if pred[0] == "u":
                    r = Or(uno, r)
            elif pred == "one":
                r = And(Not(uno), Not(z3.fpEQ(a, b)))
            else:  # une
                r = Not(z3.fpEQ(a, b))
        return simp(r)

    def ite(self, st, c, a, b):
        if isint(c):
            return a if c else b
        if isinstance(a, list) or isinstance(b, list):
            return [self.ite(st, c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    if isint(a.off) and isint(b.off) and a.off == b.off:
                        return a
                    return Ptr(a.obj, simp(If(tobool(c), bv(a.off, 64), bv(b.off, 64))))
            return a if self.decide(st, c) else b
        if isint(a) and isint(b) and a == b:
            return a
        cc = tobool(c)
        if is_fp(a):
            if a.eq(b):
                return a
            if self.dy_shape(st, a) and self.dy_shape(st, b):
                da = self.dyadic(st, a)
                db = self.dyadic(st, b) if da is not None else None
                if db is not None:
                    al = self.dy_align(st, da, db)
                    P = a.sort().sbits()
                    if al is not None and self.within(st, al[0], P) and self.within(st, al[1], P):
                        return self.dy_make(st, If(cc, al[0], al[1]), al[2], a.sort())
            ab, bb = fp_bits(a), fp_bits(b)
            if ab is not None and bb is not None:
                return fpBVToFP(simplify(If(cc, ab, bb)), a.sort())
            return If(cc, a, b)
        if isinstance(a, BoolRef) or isinstance(b, BoolRef):
            return simp(If(cc, tobool(a), tobool(b)))
        w = a.size() if isinstance(a, BitVecRef) else b.size() if isinstance(b, BitVecRef) else None
        if w is None:
            return None  # caller supplies the width
        return If(cc, bv(a, w), bv(b, w))

    # ------------------------------------------------------------------ execution
    def val(self, st, fr, o):
        if o[0] == "i":
            return fr.regs[o[1]]
        if o[0] == "c":
            c = o[1]
            if c.kind == "int":
                return c.v
            if c.kind in ("undef",):
                return self.undef_ty(c.ty)
            return self.constval(st, c)
        raise Unsupported("operand")

    def optype(self, fr, o):
        return o[1].ty if o[0] == "c" else None

    def get_fn(self, fn):
        if fn.blocks is None and not fn.decl:
            self.mod.load(fn)
        return fn

    def push_call(self, st, fn, args, retinst):
        self.get_fn(fn)
        if fn.irreducible:
            raise Unsupported("irreducible loops in " + fn.name)
        if len(st.frames) > 200:
            raise Unsupported("recursion too deep in " + fn.name)
        f = Frame(fn)
        for i, a in enumerate(args[:len(fn.params)]):
            f.regs[i] = a
        f.retinst = retinst
        f.block = None
        st.frames.append(f)
        self.called[fn.name] = self.called.get(fn.name, 0) + 1
        self.enter(st, f, fn.blocks[0], None)

    def enter(self, st, fr, blk, prev):
        """move to blk, evaluating its phis"""
        vals = []
        for ph in blk.phis:
            for o, pb in ph.ops:
                if pb is prev:
                    vals.append((ph.id, self.val(st, fr, o)))
                    break
        for i, v in vals:
            fr.regs[i] = v
        fr.prev = prev
        fr.block = blk
        fr.idx = 0
        if blk in fr.fn.loops:
            fr.tag = "header"

    def explore(self, st, stop=None):
        """depth-first over all paths from st. stop(state) -> bool ends a path early"""
        work = [st]
        while work:
            s = work.pop()
            try:
                self.run(s, work, stop)
            except PathEnd:
                self.stats["paths"] += 1

    def run(self, st, work, stop):
        while True:
            if not st.frames:
                self.stats["paths"] += 1
                if stop:
                    stop(st, "end")
                return
            fr = st.frames[-1]
            if fr.tag == "header":
                fr.tag = None
                if stop and stop(st, "header"):
                    return
                r = self.at_header(st, fr, work, stop)
                if r:
                    return
                continue
            if stop is not None and stop(st, "step"):
                return
            insts = fr.block.insts
            try:
                while st.frames and st.frames[-1] is fr and fr.tag is None:
                    inst = fr.block.insts[fr.idx]
                    self.stats["inst"] += 1
                    self.exec(st, fr, inst)
                    if fr.idx == 0 and stop is not None:
                        break
            except Fork as f:
                alive = []
                if self.deadline and time.time() > self.deadline:
                    raise ContractError("time budget exhausted")
                n = len(f.options)
                for k, (cond, key, v) in enumerate(f.options):
                    if k == n - 1 and not alive and n == 2:
                        alive.append((cond, key, v))  # the other side was infeasible
                        break
                    if self.feasible(st, cond):
                        alive.append((cond, key, v))
                if not alive:
                    raise PathEnd()
                if len(alive) == 1:
                    cond, key, v = alive[0]
                    st.concr[key.get_id()] = (key, v)
                    st.pc.append(cond)
                    continue
                self.stats["paths"] += len(alive) - 1
                maxp = self.opts.get("max_paths", 20000)
                if self.stats["paths"] > maxp:
                    raise ContractError("too many paths")
                for fr_ in st.frames:
                    pass
                clones = [st.clone() for _ in alive[1:]]
                for s, (cond, key, v) in zip([st] + clones, alive):
                    s.concr[key.get_id()] = (key, v)
                    s.pc.append(cond)
                    s.symforks += 1
                work.extend(reversed(clones))
                continue

    # -- loops
    def at_header(self, st, fr, work, stop):
        blk = fr.block
        key = (fr.fn.name, blk.id)
        body = fr.fn.loops[blk]
        back = fr.prev in body
        if key not in self.cutloops:
            n, sf = fr.visits.get(blk.id, (0, st.symforks)) if back else (0, st.symforks)
            # count only iterations that needed a symbolic decision
            if back and st.symforks > sf:
                n += 1
            fr.visits[blk.id] = (n, st.symforks)
            lim = st.cfg.get("unroll", self.unroll)
            if n > (self.opts.get("bounded_unroll") or lim):
                if st.cfg.get("bounded") or self.opts.get("bounded_unroll"):
                    self.bounded = True
                    self.stats["paths"] += 1
                    return True
                raise NeedCut(key)
            cnt = fr.visits.get(("c", blk.id), 0) + 1 if back else 0
            fr.visits[("c", blk.id)] = cnt
            if cnt > 100000:
                raise Unsupported("loop too long " + str(key))
            return False
        return self.cut_loop(st, fr, blk, body, key, work, stop)

    def cut_loop(self, st, fr, blk, body, key, work, stop):
        import loops
        return loops.cut_loop(self, st, fr, blk, body, key, work, stop)

    # -- instructions
    def exec(self, st, fr, I):
        op = I.op
        h = DISPATCH.get(op)
        if h is None:
            raise Unsupported("instruction " + op)
        h(self, st, fr, I)

    def x_ret(self, st, fr, I):
        v = self.val(st, fr, I.ops[0]) if I.ops else None
        for a in fr.allocas:
            o = st.objs.get(a)
            if o is not None:
                o = st.wobj(a)
                o.freed = True
        st.frames.pop()
        if fr.retinst == "top":
            st.result = v
            return
        if isinstance(fr.retinst, tuple):  # ('dtor'...)
            return
        caller = st.frames[-1]
        ri = fr.retinst
        if v is not None:
            caller.regs[ri.id] = v
        self.after_call(st, caller, ri)

    def after_call(self, st, fr, I):
        if I.op == "invoke":
            self.enter(st, fr, I.x["normal"], fr.block)
        else:
            fr.idx += 1

    def x_br(self, st, fr, I):
        if len(I.x) == 1:
            self.enter(st, fr, I.x[0], fr.block)
            return
        c = self.decide(st, self.val(st, fr, I.ops[0]))
        self.enter(st, fr, I.x[0] if c else I.x[1], fr.block)

    def x_switch(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        if isinstance(v, BoolRef):
            v = If(v, BitVecVal(1, 1), BitVecVal(0, 1))
        if not isint(v):
            v = simp(v)
        if isint(v):
            for c, b in I.x["cases"]:
                if c == v:
                    self.enter(st, fr, b, fr.block)
                    return
            self.enter(st, fr, I.x["default"], fr.block)
            return
        w = v.size()
        k = self.concr_get(st, v)
        if k is None:
            bytgt = {}
            for c, b in I.x["cases"]:
                bytgt.setdefault(b.id, []).append(c)
            opts = []
            for b, cs in bytgt.items():
                opts.append((Or([v == c for c in cs]) if len(cs) > 1 else v == cs[0], v, ("sw", b)))
            opts.append((And([v != c for c, _ in I.x["cases"]]), v, ("sw", None)))
            kk = st.concr.get(("sw", I.id, v.get_id(), len(st.frames)))
            if kk is None:
                raise Fork([(c, _Key(("sw", I.id, v.get_id(), len(st.frames)), v), x) for c, _, x in opts])
            tgt = kk[1][1]
            st.concr.pop(("sw", I.id, v.get_id(), len(st.frames)))
            if tgt is None:
                self.enter(st, fr, I.x["default"], fr.block)
            else:
                for c, b in I.x["cases"]:
                    if b.id == tgt:
                        self.enter(st, fr, b, fr.block)
                        return
            return
        for c, b in I.x["cases"]:
            if c == k:
                self.enter(st, fr, b, fr.block)
                return
        self.enter(st, fr, I.x["default"], fr.block)

    def x_unreachable(self, st, fr, I):
        self.oblige(st, BoolVal(False), "ub", "unreachable code is not reached")
        raise PathEnd()

    def x_bin(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        b = self.val(st, fr, I.ops[1])
        fr.regs[I.id] = self.binop(st, I.op, a, b, I.ty)
        fr.idx += 1

    def x_fneg(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        fr.regs[I.id] = [self.fneg(x) for x in a] if isinstance(a, list) else self.fneg(a)
        fr.idx += 1

    def fneg(self, a):
        return z3.fpNeg(a) if not is_concrete_fp(a) else simplify(z3.fpNeg(a))

    def x_alloca(self, st, fr, I):
        n = self.val(st, fr, I.ops[0])
        n = self.concretize(st, n, "alloca")
        oid = self.new_obj(st, I.x.size * n, "alloca", f"local{I.id}@{I.line or ''}")
        fr.allocas.append(oid)
        fr.regs[I.id] = Ptr(oid, 0)
        fr.idx += 1

    def x_load(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        if isinstance(p, BitVecRef):
            p = self.resolve_ptr(st, p)
        fr.regs[I.id] = self.load(st, p, I.ty)
        fr.idx += 1

    def x_store(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        p = self.val(st, fr, I.ops[1])
        if isinstance(p, BitVecRef):
            p = self.resolve_ptr(st, p)
        self.store(st, p, v, I.x)
        fr.idx += 1

    def x_gep(self, st, fr, I):
        vals = [self.val(st, fr, o) for o in I.ops]
        tys = []
        for o, v in zip(I.ops[1:], vals[1:]):
            if o[0] == "c":
                tys.append(o[1].ty)
            else:
                tys.append(_W(v.size() if isinstance(v, BitVecRef) else self.regwidth(fr, o[1])))
        fr.regs[I.id] = self.gep(st, vals[0], I.x, vals[1:], tys)
        fr.idx += 1

    def regwidth(self, fr, rid):
        fn = fr.fn
        d = self.fncache.get(fn.name)
        if d is None:
            d = {}
            for i, t in fn.params:
                d[i] = t
            for b in fn.blocks:
                for p in b.phis:
                    d[p.id] = p.ty
                for x in b.insts:
                    d[x.id] = x.ty
            self.fncache[fn.name] = d
        return d[rid].width

    def x_cast(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        fr.regs[I.id] = self.cast(st, I.op, v, I.x, I.ty)
        fr.idx += 1

    def cast(self, st, op, v, f, t):
        if t.kind == "vector" and op != "bitcast":
            return [self.cast(st, op, x, f.elt, t.elt) for x in v]
        if op == "bitcast":
            if t.kind == f.kind and t.kind == "ptr":
                return v
            if isinstance(v, list):
                return self.from_raw(st, self.as_bv(v, f.store, st), t)
            if t.kind == "vector":
                return self.from_raw(st, v, t)
            return self.from_raw(st, v, t)
        if op in ("ptrtoint", "inttoptr"):
            if op == "ptrtoint" and t.width < 64:
                b = self.ptr_int(st, v) if isinstance(v, Ptr) else v
                return self.cast(st, "trunc", b, _W(64), t)
            if op == "inttoptr" and isint(v):
                return Ptr(None, v)
            return v
        w = t.width
        if op in ("trunc", "zext", "sext"):
            if isinstance(v, Ptr):
                v = self.ptr_int(st, v)
            if isint(v):
                if op == "sext":
                    return sgn(v, f.width) & ((1 << w) - 1)
                return v & ((1 << w) - 1)
            if op == "trunc":
                if w == 1:
                    return simp(Extract(0, 0, v) == 1)
                return simp(Extract(w - 1, 0, v))
            if f.width == 1:
                if op == "zext":
                    return If(v, BitVecVal(1, w), BitVecVal(0, w))
                return If(v, BitVecVal((1 << w) - 1, w), BitVecVal(0, w))
            return ZeroExt(w - f.width, v) if op == "zext" else SignExt(w - f.width, v)
        if op == "fpext" or op == "fptrunc":
            if not is_concrete_fp(v) and self.dy_shape(st, v) and t.kind in ("float", "double"):
                d = self.dyadic(st, v)
                if d is not None and (op == "fpext" or self.within(st, d[0], 24)):
                    return self.dy_make(st, d[0], d[1], SORT[t.kind])
            r = fpFPToFP(rne, v, SORT[t.kind])
            return simplify(r) if is_concrete_fp(v) else r
        if op == "sitofp" or op == "uitofp":
            S = SORT[t.kind]
            if isint(v):
                x = sgn(v, f.width) if op == "sitofp" else v
                return simplify(fpSignedToFP(rne, BitVecVal(x, f.width + 1), S)) if op == "sitofp" else simplify(fpUnsignedToFP(rne, BitVecVal(x, f.width), S))
            if f.width == 1:
                v = If(v, BitVecVal(1, 8), BitVecVal(0, 8)) if op == "uitofp" else If(v, BitVecVal(255, 8), BitVecVal(0, 8))
            return fpSignedToFP(rne, v, S) if op == "sitofp" else fpUnsignedToFP(rne, v, S)
        if op in ("fptosi", "fptoui"):
            return self.fptoi(st, op, v, f.kind, w)
        raise Unsupported(op)

    def fptoi(self, st, op, v, kind, w, sat_=False):
        S = SORT[kind]
        signed = op == "fptosi"
        if not is_concrete_fp(v) and w > 1 and self.dy_shape(st, v):
            d = self.dyadic(st, v)
            if d is not None:
                x, k = d
                q = x if k == 0 else If(x >= 0, x >> k, -((-x) >> k))
                ok = True
                if signed:
                    ok = w >= 56 or self.within(st, q, w - 1) and self.valid_quick(st, q < BitVecVal(1 << (w - 1), 72))
                else:
                    ok = self.valid_quick(st, And(q >= 0, q < BitVecVal(1 << w, 72)))
                if ok:
                    return simp(Extract(w - 1, 0, q))
        tv = z3.fpRoundToIntegral(rtz, v)
        if w == 1:
            if is_concrete_fp(v):
                return int(bool(fpfloat(v)))
            raise Unsupported("fptoi1")
        if signed:
            lo, hi = -(2.0 ** (w - 1)), 2.0 ** (w - 1)
        else:
            lo, hi = 0.0, 2.0 ** w
        inr = And(z3.fpGEQ(tv, FPVal(lo, S)), z3.fpLT(tv, FPVal(hi, S)))
        conv = fpToSBV(rtz, v, z3.BitVecSort(w)) if signed else fpToUBV(rtz, v, z3.BitVecSort(w))
        if is_concrete_fp(v):
            if is_true(simplify(inr)):
                return simp(conv)
        if sat_:
            lov = (1 << (w - 1)) if signed else 0
            hiv = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
            return If(z3.fpIsNaN(v), BitVecVal(0, w), If(inr, conv, If(z3.fpLT(tv, FPVal(lo, S)), BitVecVal(lov, w), BitVecVal(hiv, w))))
        # out of range is undefined in C++; x86 gives the "integer indefinite" value for i32/i64 conversions
        key = ("f2i", v.get_id(), w, signed)
        fr = st.concr.get(key)
        if fr is None:
            fr = (v, self.fresh("f2i_oor", w))
            st.concr[key] = fr
        return If(inr, conv, fr[1])

    def x_icmp(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        b = self.val(st, fr, I.ops[1])
        t = self.operand_ty(fr, I.ops[0])
        fr.regs[I.id] = self.icmp(st, I.x, a, b, t)
        fr.idx += 1

    def operand_ty(self, fr, o):
        if o[0] == "c":
            return o[1].ty
        self.regwidth(fr, o[1])
        return self.fncache[fr.fn.name][o[1]]

    def x_fcmp(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        b = self.val(st, fr, I.ops[1])
        if isinstance(a, list):
            fr.regs[I.id] = [self.fcmp(I.x, x, y, st) for x, y in zip(a, b)]
        else:
            fr.regs[I.id] = self.fcmp(I.x, a, b, st)
        fr.idx += 1

    def x_select(self, st, fr, I):
        c = self.val(st, fr, I.ops[0])
        a = self.val(st, fr, I.ops[1])
        b = self.val(st, fr, I.ops[2])
        if isinstance(c, list):
            fr.regs[I.id] = [self.sel1(st, ci, x, y, I.ty.elt) for ci, x, y in zip(c, a, b)]
        else:
            fr.regs[I.id] = self.sel1(st, c, a, b, I.ty)
        fr.idx += 1

    def sel1(self, st, c, a, b, ty):
        if not isint(c):
            k = self.concr_get(st, simplify(tobool(c)))
            if k is not None:
                c = int(k)
        if isint(c):
            return a if c else b
        t = self.ivenv(st.pc).truth(simplify(tobool(c)))
        if t is not None:
            return a if t else b
        if self.split and (ty.kind == "int" and ty.width > 1 or ty.kind in FPW) or self.split > 1:
            return a if self.decide(st, c) else b
        if ty.kind == "int" and ty.width == 1:
            cc = tobool(c)
            return simp(If(cc, tobool(a), tobool(b)))
        if ty.kind == "int" and not isinstance(a, Ptr) and not isinstance(b, Ptr):
            if isint(a) and isint(b) and a == b:
                return a
            return If(tobool(c), bv(a, ty.width), bv(b, ty.width))
        r = self.ite(st, c, a, b)
        if r is None:
            raise Unsupported("select")
        return r

    def x_extractvalue(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        for i in I.x:
            v = v[i]
        fr.regs[I.id] = v
        fr.idx += 1

    def x_insertvalue(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        e = self.val(st, fr, I.ops[1])

        def ins(v, path):
            v = list(v)
            if len(path) == 1:
                v[path[0]] = e
            else:
                v[path[0]] = ins(v[path[0]], path[1:])
            return v
        fr.regs[I.id] = ins(v, I.x)
        fr.idx += 1

    def x_extractelement(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        i = self.concretize(st, self.val(st, fr, I.ops[1]), "extractelement")
        fr.regs[I.id] = v[i]
        fr.idx += 1

    def x_insertelement(self, st, fr, I):
        v = list(self.val(st, fr, I.ops[0]))
        e = self.val(st, fr, I.ops[1])
        i = self.concretize(st, self.val(st, fr, I.ops[2]), "insertelement")
        v[i] = e
        fr.regs[I.id] = v
        fr.idx += 1

    def x_shufflevector(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        b = self.val(st, fr, I.ops[1])
        ab = list(a) + list(b)
        fr.regs[I.id] = [ab[m] if m >= 0 else self.undef_ty(I.ty.elt) for m in I.x]
        fr.idx += 1

    def x_freeze(self, st, fr, I):
        fr.regs[I.id] = self.val(st, fr, I.ops[0])
        fr.idx += 1

    def x_fence(self, st, fr, I):
        fr.idx += 1

    def x_atomicrmw(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        v = self.val(st, fr, I.ops[1])
        old = self.load(st, p, I.ty)
        k = I.x  # Xchg0 Add1 Sub2 And3 Nand4 Or5 Xor6 Max7 Min8 UMax9 UMin10
        if k == 0:
            n = v
        else:
            n = self.binop(st, {1: "add", 2: "sub", 3: "and", 5: "or", 6: "xor"}[k], old, v, I.ty)
        self.store(st, p, n, I.ty)
        fr.regs[I.id] = old
        fr.idx += 1

    def x_cmpxchg(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        e = self.val(st, fr, I.ops[1])
        n = self.val(st, fr, I.ops[2])
        ty = self.operand_ty(fr, I.ops[1])
        old = self.load(st, p, ty)
        eq = self.icmp(st, "eq", old, e, ty)
        if self.decide(st, eq):
            self.store(st, p, n, ty)
            fr.regs[I.id] = [old, 1]
        else:
            fr.regs[I.id] = [old, 0]
        fr.idx += 1

    # -- exceptions
    def throw(self, st, exptr, tiname):
        st.exn = (exptr, tiname)
        self.unwind(st)

    def unwind(self, st):
        while st.frames:
            fr = st.frames[-1]
            if fr.block is not None:
                I = fr.block.insts[fr.idx] if fr.idx < len(fr.block.insts) else None
                if I is not None and I.op == "invoke":
                    ub = I.x["unwind"]
                    lp = next(x for x in ub.insts if x.op == "landingpad")
                    sel = self.match_clauses(lp, st.exn[1])
                    if sel is not None:
                        self.enter(st, fr, ub, fr.block)
                        fr.regs[lp.id] = [st.exn[0], sel]
                        fr.idx = ub.insts.index(lp) + 1
                        return
            for a in fr.allocas:
                if a in st.objs:
                    st.wobj(a).freed = True
            st.frames.pop()
            if fr.retinst == "top":
                break
        # nothing caught it
        fn = fr.fn
        st.frames = [fr]
        self.oblige(st, BoolVal(False), "exception", f"no exception escapes ({st.exn[1]})")
        st.frames = []
        raise PathEnd()

    def typeid(self, name):
        if name not in self.typeids:
            self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]

    def bases(self, ti):
        out = [ti]
        seen = {ti}
        todo = [ti]
        while todo:
            t = todo.pop()
            b = STD_BASES.get(t)
            if b:
                if b not in seen:
                    seen.add(b)
                    out.append(b)
                    todo.append(b)
                continue
            gv = self.mod.globals.get(t)
            if gv is not None and not gv.decl:
                init = self.mod.global_init(gv)
                if init is not None and init.kind == "agg":
                    for e in init.v[2:]:
                        if e.kind == "global" and e.v.name.startswith("_ZTI") and e.v.name not in seen:
                            seen.add(e.v.name)
                            out.append(e.v.name)
                            todo.append(e.v.name)
        return out

    def match_clauses(self, lp, ti):
        bs = self.bases(ti)
        for c in lp.x["clauses"]:
            if c.kind == "null":
                return self.typeid("...")
            if c.kind == "global":
                if c.v.name in bs:
                    return self.typeid(c.v.name)
            elif c.kind in ("agg", "zero"):
                return -1 & 0xffffffff
        if lp.x["cleanup"]:
            return 0
        return None

    def x_landingpad(self, st, fr, I):
        raise Unsupported("landingpad reached normally")

    def x_resume(self, st, fr, I):
        v = self.val(st, fr, I.ops[0])
        st.frames.pop()
        for a in fr.allocas:
            if a in st.objs:
                st.wobj(a).freed = True
        if fr.retinst == "top":
            st.frames = [fr]
            self.oblige(st, BoolVal(False), "exception", f"no exception escapes ({st.exn[1]})")
            raise PathEnd()
        self.unwind(st)

    # -- calls
    def x_call(self, st, fr, I):
        c = I.x["callee"]
        if c[0] == "c" and c[1].kind == "fn":
            fn = c[1].v
        elif c[0] == "c" and c[1].kind == "asm":
            # an empty asm statement used as a compiler barrier
            if '""' in c[1].v or "asm" in c[1].v:
                if I.ty.kind != "void":
                    raise Unsupported("inline asm")
                fr.idx += 1
                return
            raise Unsupported("inline asm")
        else:
            v = self.val(st, fr, c)
            if isinstance(v, BitVecRef):
                v = self.resolve_ptr(st, v)
            if not isinstance(v, Ptr) or not isinstance(v.obj, llvmir.Function):
                self.oblige(st, BoolVal(False), "memory", "call through a null/invalid function pointer")
                raise PathEnd()
            fn = v.obj
        args = [None if o[0] == "m" else self.val(st, fr, o) for o in I.ops]
        name = fn.name
        rep = st.replaces.get(name)
        if rep is not None and not any(f.fn is rep for f in st.frames):
            self.push_call(st, rep, args, I)
            return
        h = self.model(name)
        if h is not None:
            r = h(self, st, fr, I, args)
            if r is NOADV:
                return
            if I.ty.kind != "void":
                fr.regs[I.id] = r
            self.after_call(st, fr, I)
            return
        if fn.decl:
            raise Unsupported("external function without a contract: " + name)
        self.push_call(st, fn, args, I)

    def model(self, name):
        import models
        return models.lookup(self, name)


_VARS = {}


def vars_of(e):
    """names of the constants of a term"""
    k = e.get_id()
    c = _VARS.get(k)
    if c is not None:
        return c[0]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            todo.extend(x.children())
    _VARS[k] = (out, e)
    return out


class _W:
    def __init__(self, w):
        self.width = w
        self.kind = "int"


class _Key:
    """fork key that is not an AST"""

    def __init__(self, k, ref):
        self.k = k
        self.ref = ref

    def get_id(self):
        return self.k


class _Concretize(Exception):
    def __init__(self, e):
        self.e = e


NOADV = object()


def fpfloat(v):
    if not z3.is_fp_value(v):
        return None
    if v.isNaN():
        return float("nan")
    if v.isInf():
        return -math.inf if v.isNegative() else math.inf
    s = v.sort()
    if s == F80:
        v = simplify(fpFPToFP(rne, v, F64))
    elif s == F32:
        v = simplify(fpFPToFP(rne, v, F64))
    b = simplify(fpToIEEEBV(v))
    return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0]


DISPATCH = {
    "ret": Engine.x_ret, "br": Engine.x_br, "switch": Engine.x_switch, "unreachable": Engine.x_unreachable, "fneg": Engine.x_fneg,
    "alloca": Engine.x_alloca, "load": Engine.x_load, "store": Engine.x_store, "getelementptr": Engine.x_gep,
    "icmp": Engine.x_icmp, "fcmp": Engine.x_fcmp, "select": Engine.x_select, "extractvalue": Engine.x_extractvalue,
    "insertvalue": Engine.x_insertvalue, "extractelement": Engine.x_extractelement, "insertelement": Engine.x_insertelement,
    "shufflevector": Engine.x_shufflevector, "freeze": Engine.x_freeze, "fence": Engine.x_fence, "atomicrmw": Engine.x_atomicrmw,
    "cmpxchg": Engine.x_cmpxchg, "landingpad": Engine.x_landingpad, "resume": Engine.x_resume, "call": Engine.x_call,
    "invoke": Engine.x_call}
for _o in "add fadd sub fsub mul fmul udiv sdiv fdiv urem srem frem shl lshr ashr and or xor".split():
    DISPATCH[_o] = Engine.x_bin
for _o in "trunc zext sext fptoui fptosi uitofp sitofp fptrunc fpext ptrtoint inttoptr bitcast addrspacecast".split():
    DISPATCH[_o] = Engine.x_cast
