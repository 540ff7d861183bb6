"""Interval reasoning over bit-vector terms: sound, incomplete, cheap.  Bounds of the atoms come from the
path condition; values are signed integers at the width of the term."""
import z3

K = z3
OPS = {z3.Z3_OP_BADD: "add", z3.Z3_OP_BSUB: "sub", z3.Z3_OP_BMUL: "mul", z3.Z3_OP_BNEG: "neg", z3.Z3_OP_SIGN_EXT: "sext",
       z3.Z3_OP_ZERO_EXT: "zext", z3.Z3_OP_EXTRACT: "extract", z3.Z3_OP_ITE: "ite", z3.Z3_OP_BSHL: "shl", z3.Z3_OP_BASHR: "ashr",
       z3.Z3_OP_BLSHR: "lshr", z3.Z3_OP_CONCAT: "concat", z3.Z3_OP_BAND: "and"}


def full(w):
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def fit(lo, hi, w):
    a, b = full(w)
    return (lo, hi) if a <= lo and hi <= b else (a, b)


class Env:
    def __init__(self, parent=None):
        self.b = dict(parent.b) if parent else {}
        self.memo = {}
        self.keep = []

    def get(self, e):
        return self.b.get(e.get_id())

    def narrow(self, e, lo, hi):
        k = e.get_id()
        w = e.size()
        a, b = self.b[k][0] if k in self.b else full(w)
        a, b = max(a, lo), min(b, hi)
        self.b[k] = ((a, b), e)
        self.memo = {}
        # x + c in [a,b] without wrap-around gives x
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BADD and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            c = e.arg(0).as_signed_long()
            f = full(w)
            if f[0] <= a - c and b - c <= f[1]:
                self.narrow(e.arg(1), a - c, b - c)
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_SIGN_EXT,):
            self.narrow(e.arg(0), a, b)

    def assume(self, c):
        if not z3.is_app(c):
            return
        d = c.decl().kind()
        if d == z3.Z3_OP_AND:
            for x in c.children():
                self.assume(x)
            return
        neg = False
        while d == z3.Z3_OP_NOT:
            neg = not neg
            c = c.arg(0)
            d = c.decl().kind()
        if neg and d == z3.Z3_OP_OR:
            for x in c.children():
                self.assume(z3.Not(x))
            return
        if d == z3.Z3_OP_AND and not neg:
            for x in c.children():
                self.assume(x)
            return
        if neg and d == z3.Z3_OP_AND and c.num_args() == 2:
            self.outside(c.arg(0), c.arg(1))
            return
        if not neg and d == z3.Z3_OP_OR and c.num_args() == 2:
            self.outside(z3.Not(c.arg(0)), z3.Not(c.arg(1)))
            return
        if c.num_args() != 2 or not z3.is_bv(c.arg(0)):
            return
        a, b = c.arg(0), c.arg(1)
        self.keep.append(c)
        w = a.size()
        if d == z3.Z3_OP_EQ:
            if neg:
                return
            if z3.is_bv_value(a):
                a, b = b, a
            la, lb = self.ev(a), self.ev(b)
            if z3.is_bv_value(b) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_EXTRACT and b.as_long() == 0:
                hi_, lo_ = a.params()
                x = a.arg(0)
                if hi_ == x.size() - 1:
                    self.narrow(x, 0, (1 << lo_) - 1)
                    return
            self.narrow(a, *lb)
            self.narrow(b, *la)
            return
        # normalise to a <= b or a < b
        strict = d in (z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_ULT, z3.Z3_OP_UGT)
        signed = d in (z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ)
        if d in (z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            a, b = b, a
        elif d not in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ):
            return
        if neg:
            a, b = b, a
            strict = not strict
        s = 1 if strict else 0
        la, lb = self.ev(a), self.ev(b)
        if signed:
            self.narrow(a, full(w)[0], lb[1] - s)
            self.narrow(b, la[0] + s, full(w)[1])
        else:
            if la[0] == la[1] and la[0] < 0:
                # c <=u b with c in the upper half
                self.narrow(b, la[0] + s, -1)
                return
            if la[0] >= 0 and lb[1] < la[0] + s:
                # a <=u b, but every non-negative value of b is below a
                self.narrow(b, full(w)[0], -1)
                return
            # a <u b with b known non-negative as a signed number bounds a from both sides
            if lb[0] >= 0:
                self.narrow(a, 0, lb[1] - s)
                la = self.ev(a)
            if la[0] >= 0 and lb[0] >= 0:
                self.narrow(b, la[0] + s, full(w)[1])

    def bound(self, c):
        """('le'|'ge', x, const) for an unsigned bound on a term"""
        neg = False
        while z3.is_app(c) and c.decl().kind() == z3.Z3_OP_NOT:
            neg = not neg
            c = c.arg(0)
        if not z3.is_app(c) or c.decl().kind() != z3.Z3_OP_ULEQ:
            return None
        a, b = c.arg(0), c.arg(1)
        if z3.is_bv_value(b):
            return ("ge", a, b.as_long() + 1) if neg else ("le", a, b.as_long())
        if z3.is_bv_value(a):
            return ("le", b, a.as_long() - 1) if neg else ("ge", b, a.as_long())
        return None

    def outside(self, p, q):
        """not (p and q)"""
        bs = [self.bound(p), self.bound(q)]
        if None in bs or bs[0][0] == bs[1][0] or not bs[0][1].eq(bs[1][1]):
            return
        x = bs[0][1]
        w = x.size()
        B = [b[2] for b in bs if b[0] == "ge"][0]
        A = [b[2] for b in bs if b[0] == "le"][0]
        h = 1 << (w - 1)
        if B <= h <= A + 1:
            # x <u B or x >u A
            self.keep.append(x)
            self.narrow(x, A + 1 - (1 << w), B - 1)

    def ev(self, e):
        k = e.get_id()
        m = self.memo.get(k)
        if m is not None:
            return m[0]
        r = self.ev_(e)
        b = self.b.get(k)
        if b is not None:
            r = (max(r[0], b[0][0]), min(r[1], b[0][1]))
        self.memo[k] = (r, e)
        return r

    def ev_(self, e):
        w = e.size()
        if z3.is_bv_value(e):
            v = e.as_signed_long()
            return v, v
        if not z3.is_app(e):
            return full(w)
        op = OPS.get(e.decl().kind())
        if op is None:
            return full(w)
        if op == "add":
            lo = hi = 0
            for c in e.children():
                a, b = self.ev(c)
                lo += a
                hi += b
            return fit(lo, hi, w)
        if op == "sub":
            (a, b), (c, d) = self.ev(e.arg(0)), self.ev(e.arg(1))
            return fit(a - d, b - c, w)
        if op == "neg":
            a, b = self.ev(e.arg(0))
            return fit(-b, -a, w)
        if op == "mul":
            lo, hi = 1, 1
            for c in e.children():
                a, b = self.ev(c)
                p = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(p), max(p)
            return fit(lo, hi, w)
        if op == "sext":
            return self.ev(e.arg(0))
        if op == "zext":
            a, b = self.ev(e.arg(0))
            if a >= 0:
                return a, b
            return 0, (1 << e.arg(0).size()) - 1
        if op == "extract":
            hi_, lo_ = e.params()
            if lo_ == 0:
                return fit(*self.ev(e.arg(0)), w)
            a, b = self.ev(e.arg(0))
            if hi_ == e.arg(0).size() - 1:
                return a >> lo_, b >> lo_
            return full(w)
        if op == "ite":
            t = self.truth(e.arg(0))
            if t is True:
                return self.ev(e.arg(1))
            if t is False:
                return self.ev(e.arg(2))
            (a, b), (c, d) = self.ev(e.arg(1)), self.ev(e.arg(2))
            return min(a, c), max(b, d)
        if op in ("shl", "ashr", "lshr") and z3.is_bv_value(e.arg(1)):
            n = e.arg(1).as_long()
            if n >= w:
                return full(w)
            a, b = self.ev(e.arg(0))
            if op == "shl":
                return fit(a << n, b << n, w)
            if op == "ashr" or a >= 0:
                return a >> n, b >> n
            return full(w) if n == 0 else (0, (1 << (w - n)) - 1)
        if op == "concat":
            # zero-extension written as a concatenation
            c0 = e.arg(0)
            if z3.is_bv_value(c0) and c0.as_long() == 0:
                return 0, (1 << (w - c0.size())) - 1
            return full(w)
        if op == "and":
            best = None
            for c in e.children():
                a, b = self.ev(c)
                if a >= 0:
                    best = b if best is None else min(best, b)
            return (0, best) if best is not None else full(w)
        return full(w)

    def truth(self, c):
        """True / False / None"""
        if not z3.is_app(c):
            return None
        d = c.decl().kind()
        if d == z3.Z3_OP_TRUE:
            return True
        if d == z3.Z3_OP_FALSE:
            return False
        if d == z3.Z3_OP_NOT:
            t = self.truth(c.arg(0))
            return None if t is None else not t
        if d == z3.Z3_OP_AND:
            ts = [self.truth(x) for x in c.children()]
            return False if False in ts else (True if all(t is True for t in ts) else None)
        if d == z3.Z3_OP_OR:
            ts = [self.truth(x) for x in c.children()]
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if c.num_args() != 2 or not z3.is_bv(c.arg(0)):
            return None
        a, b = self.ev(c.arg(0)), self.ev(c.arg(1))
        if d == z3.Z3_OP_EQ:
            if a[1] < b[0] or b[1] < a[0]:
                return False
            if a[0] == a[1] == b[0] == b[1]:
                return True
            return None
        if d in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            m = 1 << c.arg(0).size()
            if a[1] < 0:
                a = (a[0] + m, a[1] + m)
            if b[1] < 0:
                b = (b[0] + m, b[1] + m)
            if a[0] < 0 or b[0] < 0:
                return None
        if d in (z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            a, b = b, a
        if d in (z3.Z3_OP_SLT, z3.Z3_OP_ULT, z3.Z3_OP_SGT, z3.Z3_OP_UGT):
            if a[1] < b[0]:
                return True
            if a[0] >= b[1]:
                return False
        if d in (z3.Z3_OP_SLEQ, z3.Z3_OP_ULEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_UGEQ):
            if a[1] <= b[0]:
                return True
            if a[0] > b[1]:
                return False
        return None
