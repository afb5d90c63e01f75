"""Bit-level canonical forms: integer terms over small leaves as vectors of decision diagrams.

Used to compare two terms, or to refute a conjunction of path facts, exactly. A reduced
ordered diagram is a canonical form of a boolean function, so equality is pointer equality."""
from terms import *

W = 44  # two's complement width of every compiled value


class NoBits(Exception):
    pass


class Bdd:
    def __init__(self, limit=400_000):
        self.u = {}
        self.ite_c = {}
        self.nodes = [None, None]
        self.limit = limit

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.u.get(k)
        if r is None:
            if len(self.nodes) > self.limit:
                raise NoBits("too large")
            r = len(self.nodes)
            self.nodes.append(k)
            self.u[k] = r
        return r

    def var(self, v):
        return self.node(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.ite_c.get(k)
        if r is not None:
            return r
        ns = self.nodes
        v = min(ns[x][0] for x in k if x > 1)

        def co(x, b):
            return ns[x][1 + b] if x > 1 and ns[x][0] == v else x

        r = self.node(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.ite_c[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def not_(self, a):
        return self.ite(a, 0, 1)

    def xor(self, a, b):
        return self.ite(a, self.not_(b), b)

    def sat(self, a):
        """one satisfying assignment {var: bit}, or None"""
        if a == 0:
            return None
        r = {}
        while a > 1:
            v, lo, hi = self.nodes[a]
            if lo:
                r[v], a = 0, lo
            else:
                r[v], a = 1, hi
        return r


class Bits:
    """compiles terms under a set of facts (for the ranges of the leaves)"""

    def __init__(self, f, leaf_bits=None):
        self.f, self.b = f, Bdd()
        self.vars = {}
        self.n = 0
        self.memo = {}
        self.care = None
        self.leaf_bits = leaf_bits

    def const(self, k):
        return [k >> i & 1 for i in range(W)]

    def leaf(self, t):
        r = self.vars.get(t)
        if r is None:
            lo, hi = self.f.base_range(t)
            if lo < 0 or hi >= 1 << W - 2:
                raise NoBits("leaf " + show(t)[:60])
            nb = hi.bit_length()
            k = len(self.vars)  # interleaved, most significant first: sums and comparisons stay small
            r = [self.b.var((W - i) * 4096 + k) for i in range(nb)] + [0] * (W - nb)
            self.vars[t] = r
            if hi != (1 << nb) - 1:
                self.dom = getattr(self, "dom", 1)
                self.dom = self.b.and_(self.dom, self.inrange(r, lo, hi))
        return r

    def add(self, x, y, c=0):
        B = self.b
        r = []
        for p, q in zip(x, y):
            s = B.xor(p, q)
            r.append(B.xor(s, c))
            c = B.or_(B.and_(p, q), B.and_(s, c))
        return r

    def neg(self, x):
        return self.add([self.b.not_(p) for p in x], self.const(0), 1)

    def mulc(self, x, k):
        if k < 0:
            return self.neg(self.mulc(x, -k))
        r = self.const(0)
        i = 0
        while k >> i:
            if k >> i & 1:
                r = self.add(r, ([0] * i + x)[:W])
            i += 1
        return r

    def comp(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._comp(t)
        return r

    def _comp(self, t):
        op, a = t.op, t.a
        if op == "int":
            if not -(1 << W - 2) < a[0] < 1 << W - 2:
                raise NoBits("wide")
            return self.const(a[0])
        if op == "lin":
            r = self.const(a[0])
            for v, k in a[1]:
                r = self.add(r, self.mulc(self.comp(v), k))
            return r
        if op == "bits":
            x = self.comp(a[0])
            y = x[a[1]: a[1] + a[2]]
            return y + [0] * (W - len(y))
        if op == "wrap":
            x = self.comp(a[2])
            if a[0] >= W:
                raise NoBits("wide wrap")
            s = x[a[0] - 1] if a[1] else 0
            return x[: a[0]] + [s] * (W - a[0])
        if op in ("band", "bor", "bxor"):
            x, y = self.comp(a[0]), self.comp(a[1])
            fn = {"band": self.b.and_, "bor": self.b.or_, "bxor": self.b.xor}[op]
            return [fn(p, q) for p, q in zip(x, y)]
        if op in ("shl", "shr") and isint(a[1]):
            x, n = self.comp(a[0]), a[1].a[0]
            if op == "shl":
                return ([0] * n + x)[:W]
            return x[n:] + [x[-1]] * n
        if op == "ovf":
            x = self.comp(a[2])
            n = a[0]
            if n >= W:
                raise NoBits("wide ovf")
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if a[1] else (0, (1 << n) - 1)
            return [self.b.not_(self.inrange(x, lo, hi))] + [0] * (W - 1)
        if op == "lt":
            return [self.comp(a[0])[W - 1]] + [0] * (W - 1)
        if op == "eq0":
            return [self.iszero(self.comp(a[0]))] + [0] * (W - 1)
        if op == "not":
            return [self.b.not_(self.comp(a[0])[0])] + [0] * (W - 1)
        if op in ("and", "or"):
            r = self.comp(a[0])[0]
            for x in a[1:]:
                r = (self.b.and_ if op == "and" else self.b.or_)(r, self.comp(x)[0])
            return [r] + [0] * (W - 1)
        if op in ("elem", "sym", "fld"):
            return self.leaf(t)
        raise NoBits(op)

    def iszero(self, x):
        r = 1
        for p in x:
            r = self.b.and_(r, self.b.not_(p))
        return r

    def inrange(self, x, lo, hi):
        r = 1
        if lo > -(1 << W - 2):
            r = self.b.and_(r, self.b.not_(self.add(x, self.const(-lo))[W - 1]))
        if hi < 1 << W - 2:
            r = self.b.and_(r, self.b.not_(self.add(self.const(hi), self.neg(x))[W - 1]))
        return r

    def assume(self, order):
        """conjunction of the facts that can be compiled"""
        r = 1
        skipped = 0
        for x in order:
            try:
                v = self.comp(x[0])
                if x[1] == "ne":
                    g = self.b.not_(self.iszero(self.add(v, self.const(-x[2]))))
                else:
                    g = self.inrange(v, x[1], x[2])
            except NoBits:
                skipped += 1
                continue
            r = self.b.and_(r, g)
        self.skipped = skipped
        self.care = self.b.and_(r, getattr(self, "dom", 1))
        return self.care

    def equal(self, x, y):
        """1 equal wherever the facts hold, else a counterexample {leaf: value}"""
        p, q = self.comp(x), self.comp(y)
        d = 0
        for i, j in zip(p, q):
            d = self.b.or_(d, self.b.xor(i, j))
        d = self.b.and_(d, self.care if self.care is not None else 1)
        d = self.b.and_(d, getattr(self, "dom", 1))
        if d == 0:
            return None
        return self.model(d)

    def model(self, d):
        m = self.b.sat(d)
        res = {}
        for t, bits in self.vars.items():
            v = 0
            for i, p in enumerate(bits):
                if p > 1:
                    v |= m.get(self.b.nodes[p][0], 0) << i
            res[t] = v
        return res
