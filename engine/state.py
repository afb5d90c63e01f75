"""Abstract state: memory cells and path facts (intervals over normalised terms)."""
from terms import *

INF = 1 << 200


class Infeasible(Exception):
    pass


NOTHING = frozenset()


class Facts:
    """Interval + disequality facts.  Immutable by convention (copy before change)."""

    __slots__ = ("iv", "ne", "ty", "order")

    def __init__(self, ty):
        self.iv = {}
        self.ne = {}
        self.ty = ty
        self.order = ()

    def copy(self):
        f = Facts(self.ty)
        f.iv = dict(self.iv)
        f.ne = dict(self.ne)
        f.order = self.order
        return f

    # -- intervals
    def base_range(self, t):
        op = t.op
        if op in ("sym", "fld", "elem", "rd", "app", "mget", "phi"):
            ti = t.a[-1]
            if op == "app" and t.a[0] == "idx":
                return (1, 65535)
            if isinstance(ti, int):
                r = self.ty.int_range(ti)
                if r:
                    return r
            return (-INF, INF)
        if op == "discr":
            n = t.a[1]
            return (0, n - 1)
        if op == "discv":
            ds = self.ty.discrs(t.a[1])
            lo, hi = self.range(t.a[0])
            if 0 <= lo <= hi < len(ds):
                ds = ds[lo : hi + 1]
            return (min(ds), max(ds))
        if op in ("len", "plen", "it"):
            return (0, (1 << 56))
        if op == "wrap":
            bits, s = t.a[0], t.a[1]
            return (-(1 << bits - 1), (1 << bits - 1) - 1) if s else (0, (1 << bits) - 1)
        if op == "bits":
            return (0, (1 << t.a[2]) - 1)
        if op in ("lt", "eq0", "eq", "not", "and", "or", "ovf", "ok"):
            return (0, 1)
        if op == "rem" and isint(t.a[1]):
            n = t.a[1].a[0]
            if n > 0 and self.range(t.a[0])[0] >= 0:
                return (0, n - 1)
        if op == "div" and isint(t.a[1]) and t.a[1].a[0] > 0:
            lo, hi = self.range(t.a[0])
            if lo >= 0:
                return (lo // t.a[1].a[0], hi // t.a[1].a[0])
        if op == "mul":
            (a, b), (c, d) = self.range(t.a[0]), self.range(t.a[1])
            if a >= 0 and c >= 0:
                return (a * c, min(INF, b * d))
        return (-INF, INF)

    def range(self, t):
        if t.op == "int":
            return (t.a[0], t.a[0])
        if t.op == "lin":
            c, vs = t.a
            lo = hi = c
            for v, k in vs:
                a, b = self.range(v)
                if k > 0:
                    lo += k * a
                    hi += k * b
                else:
                    lo += k * b
                    hi += k * a
            g, key, sgn = self.key(vs)
            f = self.iv.get(key)
            if f:
                a, b = f[0] * g, f[1] * g
                if sgn < 0:
                    a, b = -b, -a
                lo, hi = max(lo, c + a), min(hi, c + b)
            return (max(lo, -INF), min(hi, INF))
        lo, hi = self.base_range(t)
        f = self.iv.get(t)
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        return (lo, hi)

    @staticmethod
    def key(vs):
        """normalised variable part: (gcd, key-term, sign)"""
        from math import gcd

        g = 0
        for _, k in vs:
            g = gcd(g, abs(k))
        sgn = 1 if vs[0][1] > 0 else -1
        if len(vs) == 1:
            return g, vs[0][0], sgn
        return g, mk("lin", 0, tuple((v, k * sgn // g) for v, k in vs)), sgn

    def bound(self, t, lo, hi, rec=True):
        """assume lo<=t<=hi; raises Infeasible"""
        if t.op == "int":
            if not lo <= t.a[0] <= hi:
                raise Infeasible
            return
        c, vs = lin_parts(t)
        g, key, sgn = self.key(vs)
        a, b = lo - c, hi - c
        if sgn < 0:
            a, b = -b, -a
        a = -((-a) // g) if a > -INF else a
        b = b // g if b < INF else b
        rl, rh = self.range(key)
        nl, nh = max(rl, a), min(rh, b)
        ne = self.neget(key)
        while nl <= nh and nl in ne:
            nl += 1
        while nl <= nh and nh in ne:
            nh -= 1
        if nl > nh:
            raise Infeasible
        if (nl, nh) != (rl, rh):
            if rec:
                self.order += ((key, nl, nh),)
            self.iv[key] = (nl, nh)
            if key.op == "discr" or len(vs) == 1:
                self.derive(key, nl, nh)
        # propagate to single variables
        if len(vs) > 1:
            for v, k in vs:
                rest = mk_lin(c, [(x, y) for x, y in vs if x is not v])
                l, h = self.range(rest)
                # lo <= k v + rest <= hi
                a, b = lo - h, hi - l
                if k < 0:
                    a, b = -b, -a
                    kk = -k
                else:
                    kk = k
                a = -((-a) // kk) if abs(a) < INF else -INF
                b = b // kk if abs(b) < INF else INF
                vl, vh = self.range(v)
                if a > vl or b < vh:
                    if max(a, vl) > min(b, vh):
                        raise Infeasible
                    self.iv[v] = (max(a, vl), min(b, vh))

    def derive(self, key, lo, hi):
        op = key.op
        if op == "discv":
            ds = self.ty.discrs(key.a[1])
            ok = [i for i, d in enumerate(ds) if lo <= d <= hi]
            if not ok:
                raise Infeasible
            self.bound(key.a[0], min(ok), max(ok))
        elif op == "not":
            if lo == hi:
                self.bound(key.a[0], 1 - lo, 1 - lo)
        elif op == "and" and lo == hi == 1:
            self.bound_bool(key.a[0], 1)
            self.bound_bool(key.a[1], 1)
        elif op == "or" and lo == hi == 0:
            self.bound_bool(key.a[0], 0)
            self.bound_bool(key.a[1], 0)

    def bound_bool(self, t, v):
        """assume boolean term t == v (0/1)"""
        if isint(t):
            if t.a[0] != v:
                raise Infeasible
            return
        if t.op == "not":
            return self.bound_bool(t.a[0], 1 - v)
        if t.op == "lt":
            if v:
                self.bound(t.a[0], -INF, -1)
            else:
                self.bound(t.a[0], 0, INF)
            return
        if t.op == "eq0":
            if v:
                self.bound(t.a[0], 0, 0)
            else:
                self.exclude(t.a[0], 0)
            return
        if t.op == "ovf":
            bits, s, x = t.a
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if s else (0, (1 << bits) - 1)
            if v == 0:
                self.bound(x, lo, hi)
                return
            l, h = self.range(x)
            if l >= lo:
                self.bound(x, hi + 1, INF)
            elif h <= hi:
                self.bound(x, -INF, lo - 1)
        self.bound(t, v, v)

    def exclude(self, t, val):
        if t.op == "int":
            if t.a[0] == val:
                raise Infeasible
            return
        c, vs = lin_parts(t)
        g, key, sgn = self.key(vs)
        d = val - c
        if d % g:
            return
        d = d // g * sgn
        lo, hi = self.range(key)
        if d < lo or d > hi:
            return
        if key.op == "discv":
            ds = self.ty.discrs(key.a[1])
            if d in ds:
                self.exclude(key.a[0], ds.index(d))
            else:
                return
        ne = self.neget(key) | {d}
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            raise Infeasible
        self.ne[key] = ne
        self.order += ((key, "ne", d),)
        if (lo, hi) != self.range(key):
            self.iv[key] = (lo, hi)

    def neget(self, key):
        ne = self.ne.get(key)
        if ne is None:
            ne = self.ty.static_ne(key) if key.op == "discr" else NOTHING
        return ne

    def excluded(self, t, val):
        c, vs = lin_parts(t)
        if not vs:
            return t.a[0] != val
        g, key, sgn = self.key(vs)
        d = val - c
        if d % g:
            return True
        return d // g * sgn in self.neget(key)

    # -- decisions
    def decide(self, t):
        """1/0/None for a boolean term"""
        op = t.op
        if op == "int":
            return t.a[0]
        if op == "not":
            r = self.decide(t.a[0])
            return None if r is None else 1 - r
        if op == "lt":
            lo, hi = self.range(t.a[0])
            return 1 if hi < 0 else 0 if lo >= 0 else None
        if op == "eq0":
            lo, hi = self.range(t.a[0])
            if lo == hi == 0:
                return 1
            if lo > 0 or hi < 0 or self.excluded(t.a[0], 0):
                return 0
            return None
        if op == "and":
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if a == 0 or b == 0:
                return 0
            return 1 if a == 1 and b == 1 else None
        if op == "or":
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if a == 1 or b == 1:
                return 1
            return 0 if a == 0 and b == 0 else None
        if op == "ovf":
            bits, s, x = t.a
            L, H = (-(1 << bits - 1), (1 << bits - 1) - 1) if s else (0, (1 << bits) - 1)
            lo, hi = self.range(x)
            if lo >= L and hi <= H:
                return 0
            if hi < L or lo > H:
                return 1
            return None
        lo, hi = self.range(t)
        return lo if lo == hi else None

    def value(self, t):
        """constant value of an integer term, or None"""
        lo, hi = self.range(t)
        return lo if lo == hi else None

    # -- scalar constructors that use ranges
    def wrap(self, bits, signed, t):
        L, H = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        while t.op == "wrap" and t.a[0] >= bits:
            t = t.a[2]
        lo, hi = self.range(t)
        if L <= lo and hi <= H:
            return t
        if lo == hi:
            v = lo & ((1 << bits) - 1)
            if signed and v >> bits - 1:
                v -= 1 << bits
            return I(v)
        c, vs = lin_parts(t)
        # drop wraps inside a sum when modulus divides
        nv = {}
        ch = False
        for v, k in vs:
            w = v
            while w.op == "wrap" and w.a[0] >= bits:
                w = w.a[2]
                ch = True
            cc, ww = lin_parts(w)
            c += k * cc
            for x, y in ww:
                nv[x] = nv.get(x, 0) + k * y
        if ch:
            return self.wrap(bits, signed, mk_lin(c, nv.items()))
        if not signed and lo >= 0:
            b = self.bits(t, 0, bits)
            if b is not None:
                return b
        return mk("wrap", bits, signed, t)

    def mask_of(self, t):
        """bits that may be set in non-negative t"""
        lo, hi = self.range(t)
        if lo < 0:
            return None
        if lo == hi:
            return lo
        m = (1 << hi.bit_length()) - 1
        if t.op == "lin":
            c, vs = t.a
            acc = None
            if c >= 0 and all(k > 0 and k & (k - 1) == 0 for _, k in vs):
                acc = c
                for v, k in vs:
                    mv = self.mask_of(v)
                    if mv is None or mv * k & acc:
                        return m
                    acc |= mv * k
                return acc
        return m

    def bits(self, t, lo, w):
        """bits [lo,lo+w) of non-negative t; None if not expressible"""
        tl, th = self.range(t)
        if tl < 0:
            return None
        if tl == th:
            return I(tl >> lo & ((1 << w) - 1))
        n = th.bit_length()
        if lo >= n:
            return ZERO
        w = min(w, n - lo)
        if lo == 0 and w >= n:
            return t
        # whole range shares the high bits above lo+w: x - C
        if lo == 0 and tl >> w == th >> w:
            return add(t, I(-(tl >> w << w)))
        if t.op == "bits":
            x, l2, w2 = t.a
            return self.bits(x, l2 + lo, min(w, w2 - lo)) or mk("bits", x, l2 + lo, min(w, w2 - lo))
        if t.op == "lin":
            c, vs = t.a
            if c < 0 and len(vs) == 1 and vs[0][1] == 1:
                # (x - C) with C aligned above the extracted bits
                if (-c) % (1 << lo + w) == 0:
                    r = self.bits(vs[0][0], lo, w)
                    if r is not None:
                        return r
            if c >= 0 and all(k > 0 and k & (k - 1) == 0 for _, k in vs):
                acc = c
                ok = True
                for v, k in vs:
                    mv = self.mask_of(v)
                    if mv is None or mv * k & acc:
                        ok = False
                        break
                    acc |= mv * k
                if ok:
                    r = I(c >> lo & ((1 << w) - 1))
                    for v, k in vs:
                        s = k.bit_length() - 1
                        # v occupies bits s..; want [lo,lo+w)
                        l2 = max(lo - s, 0)
                        sh = max(s - lo, 0)
                        w2 = w - sh
                        if w2 <= 0:
                            continue
                        b = self.bits(v, l2, w2)
                        if b is None:
                            return None
                        r = add(r, scale(b, 1 << sh))
                    return r
        if t.op in ("mul", "div"):
            return mk("bits", t, lo, w)
        return mk("bits", t, lo, w)

    def bitand(self, a, b):
        if isint(b):
            a, b = b, a
        if isint(a):
            m = a.a[0]
            if m == 0:
                return ZERO
            mb = self.mask_of(b)
            if mb is not None:
                if mb & ~m == 0:
                    return b
                # contiguous runs
                r = ZERO
                mm = m & mb
                i = 0
                while mm >> i:
                    if mm >> i & 1:
                        w = 0
                        while mm >> (i + w) & 1:
                            w += 1
                        x = self.bits(b, i, w)
                        if x is None:
                            return mk("band", a, b)
                        r = add(r, scale(x, 1 << i))
                        i += w
                    else:
                        i += 1
                return r
        if b.id < a.id:
            a, b = b, a
        if a is b:
            return a
        return mk("band", a, b)

    def bitor(self, a, b):
        ma, mb = self.mask_of(a), self.mask_of(b)
        if ma is not None and mb is not None:
            if ma & mb == 0:
                return self.join_bits(add(a, b))
            if isint(a) and isint(b):
                return I(a.a[0] | b.a[0])
            # x | const where const bits overlap: clear them in x first
            for x, k in ((a, b), (b, a)):
                if isint(k):
                    y = self.bitand(x, I(self.mask_of(x) & ~k.a[0]))
                    if y.op != "band":
                        return self.join_bits(add(y, k))
        if b.id < a.id:
            a, b = b, a
        return mk("bor", a, b)

    def bitxor(self, a, b):
        ma, mb = self.mask_of(a), self.mask_of(b)
        if isint(a) and isint(b):
            return I(a.a[0] ^ b.a[0])
        if ma is not None and mb is not None and ma & mb == 0:
            return self.bitor(a, b)
        if b.id < a.id:
            a, b = b, a
        return mk("bxor", a, b)

    def join_bits(self, t):
        """recombine k*bits(x,lo,w) + k/2^v*bits(x,lo-v,v) -> bits(x,lo-v,w+v)"""
        if t.op != "lin":
            return t
        c, vs = t.a
        d = dict(vs)
        ch = True
        while ch:
            ch = False
            for v, k in list(d.items()):
                if v.op != "bits" or k <= 0:
                    continue
                x, lo, w = v.a
                for u, j in list(d.items()):
                    if u is v or j <= 0:
                        continue
                    if u.op == "bits" and u.a[0] is x:
                        ul, uw = u.a[1], u.a[2]
                    elif u is x:
                        continue
                    else:
                        continue
                    if ul + uw == lo and j << uw == k:
                        nb = self.bits(x, ul, uw + w)
                        if nb is None:
                            continue
                        del d[v], d[u]
                        c2, nvs = lin_parts(nb)
                        c += j * c2
                        for y, z in nvs:
                            d[y] = d.get(y, 0) + j * z
                        ch = True
                        break
                if ch:
                    break
        return mk_lin(c, d.items())


class State:
    __slots__ = ("cells", "f", "ctr", "ctx", "ev", "heap", "tags")

    def __init__(self, ty):
        self.cells = {}
        self.f = Facts(ty)
        self.ctr = 0
        self.ctx = ()
        self.ev = ()
        self.heap = 0
        self.tags = ()

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.f = self.f.copy()
        s.ctr = self.ctr
        s.ctx = self.ctx
        s.ev = self.ev
        s.heap = self.heap
        s.tags = self.tags
        return s

    def fresh(self):
        self.ctr += 1
        return self.ctr

    def alloc(self, v):
        self.heap += 1
        c = ("H", self.ctx, self.heap)
        self.cells[c] = v
        return c
