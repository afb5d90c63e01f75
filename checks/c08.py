"""C08: strings are well-formed WTF-8 and mean what their code points say."""
from strs import *
from c07 import Trans, bytes_of, cpval, content, bitf, enc3

RULE = (
    "The validator is explored token by token to a fixpoint and must accept exactly well-formed WTF-8. Every operation on "
    "strings is interpreted for every kind of code point at its ends, with arbitrary contents elsewhere, and its result is "
    "compared, as a sequence of slices and of boolean functions of the input bits, with the specified one."
)
ASSUMPTIONS = [
    "strings given to the operations are well-formed WTF-8, lengths stay below 2^56",
    "slices, vectors and UTF-16 decoding of the standard library behave as documented",
    "lossy conversions are analysed for strings with up to three surrogates between arbitrary texts",
]


def is_ok(v):
    return v.op == "adt" and v.a[1] == 0


# ------------------------------------------------------------------ specification
def enc(c, n):
    if n == 1:
        return [c]
    if n == 2:
        return [add(I(0xC0), bitf(c, 6, 5)), add(I(0x80), bitf(c, 0, 6))]
    if n == 3:
        return enc3(c)
    return [add(I(0xF0), bitf(c, 18, 3)), add(I(0x80), bitf(c, 12, 6)), add(I(0x80), bitf(c, 6, 6)), add(I(0x80), bitf(c, 0, 6))]


CLASSES = [  # name, range, length
    ("ascii", (0, 0x7F), 1), ("two bytes", (0x80, 0x7FF), 2), ("before the surrogates", (0x800, 0xD7FF), 3),
    ("lead surrogate", (0xD800, 0xDBFF), 3), ("trail surrogate", (0xDC00, 0xDFFF), 3),
    ("after the surrogates", (0xE000, 0xFFFF), 3), ("supplementary", (0x10000, 0x10FFFF), 4),
]


def pair(hi, lo):
    return add(I(0x10000), add(scale(bitf(hi, 0, 10), 1024), bitf(lo, 0, 10)))


TOK = BMP + SUPP + [("lead surrogate", HIGH), ("trail surrogate", LOW)]
LEN3 = [("three", [[(0xE0, 0xEF)], [CONT], [CONT]]), ("four", [[(0xF0, 0xF4)], [CONT], [CONT], [CONT]])]


def ends():
    """how a string can end (read backwards) or begin: token sequences of at least three bytes, or the whole string"""
    res = [("empty", (), True)]
    short = [("ascii", ASCII), ("two", TWO)]

    def rec(name, pats, n):
        if n >= 3:
            res.append((name, pats, False))
            return
        if pats:
            res.append((name + ", nothing else", pats, True))
        for m, p in (TOK if not pats else short + LEN3):
            rec(m if not name else name + " next to " + m, pats + (p,), n + len(p))

    rec("", (), 0)
    return res


def spots(pats, whole, tail):
    """boxes for the bytes at one end: lists of (offset, lo, hi), length, exact?"""
    seqs = [()]
    for p in (reversed(pats) if tail else pats):
        seqs = [x + b for x in seqs for b in boxes(p)]
    return seqs


class Ops:
    def __init__(self, R, C, mir):
        self.R, self.C, self.ip, self.mir = R, C, C.ip, mir
        self.u8 = C.tyid("u8")
        self.n = 0

    def el(self, b, i):
        return mk("elem", b, i, self.u8)

    def fty(self, ti, i):
        return self.ip.ty[ti]["v"][0]["f"][i][1]

    def at_end(self, f, S, box, whole, tail):
        """assume the bytes at one end of the string"""
        n = len(box)
        L = mk("len", S)
        f.bound(L, n, n if whole else 1 << 56)
        for j, (lo, hi) in enumerate(box):
            f.bound(self.el(S, add(L, I(j - n)) if tail and not whole else I(j)), lo, hi)

    def last(self, S, whole, k):
        """k-th byte from the end; k = 3, 2, 1"""
        return self.el(S, add(mk("len", S), I(-k))) if not whole else None

    # -- running
    def run(self, what, fn, setup, check, intercept=None, unroll=0):
        """setup(s) -> (args, spec) ; check(o, spec, args) -> None or (kind, text)"""
        ip, R = self.ip, self.R
        ii = insts_of(self.mir, fn)
        if not ii:
            R.undecided(what, "%s is not there" % fn)
            return
        s = ip.new_state()
        try:
            args, spec = setup(s, self.mir["insts"][ii[0]]["locals"])
        except Infeasible:
            return
        self.n += 1
        R.count("analysed cases")
        ip.intercept = intercept or {}
        ip.obl = {}
        ip.steps, ip.max_steps, ip.unroll = 0, 400000, unroll
        try:
            outs = ip.run_fn(s, ii[0], args)
        except (Budget, Infeasible) as e:
            ip.stack.clear()
            outs = None
            if isinstance(e, Budget):
                R.undecided(what, "Budget %s" % e)
                return
        finally:
            ip.intercept, ip.unroll = {}, 0
        live = 0
        for o in outs or []:
            if not self.feasible(o.s):
                continue
            live += 1
            r = check(o, spec, args)
            self.report(what, o, r)
        if not live and spec != "panic":
            fails = sorted({k[2] for k, e in ip.obl.items() if e[1]})
            R.bad(what + ":stuck", "%s: every path fails (%s)" % (what, ", ".join(fails)))
        else:
            for k, e in ip.obl.items():
                if e[1] and k[2].startswith("unsafe"):
                    R.undecided(what, "%s in %s not shown" % (k[2], ip.insts[k[0]]["path"]))

    def report(self, what, o, r):
        R = self.R
        if r is None:
            R.good(what)
        elif r[0] == "?" or tainted(o.s):
            R.undecided(what, r[1])
        else:
            R.bad(what, "%s: %s" % (what, r[1]))

    def feasible(self, s):
        try:
            return Bits(s.f).assume(s.f.order) != 0
        except NoBits:
            return True

    # -- comparing sequences
    def norm(self, f, v):
        """ranges of symbolic strings and single bytes; adjacent ranges joined"""
        out = []

        def put(x):
            if x[0] == "r":
                if f.value(sub(x[3], x[2])) == 0:
                    return
                if out and out[-1][0] == "r" and out[-1][1] is x[1] and f.value(sub(out[-1][3], x[2])) == 0:
                    out[-1] = ("r", x[1], out[-1][2], x[3])
                    return
            out.append(x)

        def rec(v):
            v = content(v)
            if v.op == "seq":
                for p in v.a:
                    if p[0] == "sp":
                        rec(p[1])
                    elif p[0] == "sl":
                        put(("r", p[1], p[2], p[3]))
                    else:
                        b = bytes_of([p])
                        if b is None:
                            put(("?", v))
                        else:
                            for x in b:
                                put(("b", x))
            elif v.op in ("sym", "fld", "acc"):
                put(("r", v, ZERO, mk("len", v)))
            elif v.op == "str":
                for x in v.a[0].encode() if isinstance(v.a[0], str) else v.a[0]:
                    put(("b", I(x)))
            else:
                put(("?", v))

        rec(v)
        return out

    def same_seq(self, s, got, want):
        f = s.f
        if has_unk(got):
            return ("?", "unmodelled: " + show(got)[:150])
        g, w = self.norm(f, got), self.norm(f, want)
        if any(x[0] == "?" for x in g):
            return ("?", "not a known sequence: " + show(got)[:150])
        if [x[0] for x in g] != [x[0] for x in w]:
            return ("!", "the content is %s instead of %s" % (show(got)[:200], show(want)[:200]))
        try:
            B = Bits(f)
            for x, y in zip(g, w):
                if x[0] == "b":
                    B.comp(x[1]), B.comp(y[1])
            if B.assume(f.order) == 0:
                return None
            for x, y in zip(g, w):
                if x[0] == "r":
                    if x[1] is not y[1] or f.value(sub(x[2], y[2])) != 0 or f.value(sub(x[3], y[3])) != 0:
                        return ("!", "the content is %s instead of %s" % (show(got)[:200], show(want)[:200]))
                else:
                    c = B.equal(x[1], y[1])
                    if c is not None:
                        return ("!", "a byte is %s instead of %s for %s" % (
                            show(x[1])[:100], show(y[1])[:100], ", ".join("%s=%x" % (show(a)[:40], k) for a, k in c.items())))
        except NoBits as e:
            return ("?", "term not compiled: %s" % e)
        return None

    def same_int(self, s, got, want):
        if has_unk(got):
            return ("?", "unmodelled: " + show(got)[:150])
        if got is want or s.f.value(sub(got, want)) == 0:
            return None
        try:
            B = Bits(s.f)
            B.comp(got), B.comp(want)
            if B.assume(s.f.order) == 0:
                return None
            c = B.equal(got, want)
        except NoBits as e:
            return ("?", "not compiled: %s %s" % (e, show(got)[:100]))
        if c is None:
            return None
        return ("!", "%s instead of %s for %s" % (show(got)[:100], show(want)[:100], ", ".join("%s=%x" % (show(a)[:40], k) for a, k in c.items())))

    def sym(self, s, name, locals_, i):
        """symbolic argument; references to it where the parameter is one"""
        t = locals_[1 + i]
        T = self.ip.ty[t]
        if T["k"] == "ref":
            v = mk("sym", name, T["t"])
            return v, mk("ref", s.alloc(v), ())
        v = mk("sym", name, t)
        return v, v

    # -- the operations
    def codepoints(self):
        ip = self.ip
        buf = mk("sym", "s", -1)
        for name, pat in TOK + [("the end", None)]:
            for b in boxes(pat) if pat else [()]:
                def setup(s, L):
                    ti = ip.ty[L[1]]["t"]            # Wtf8CodePoints
                    it = self.fty(ti, 0)
                    ref = mk("ref", s.alloc(buf), ())
                    n = mk("len", buf)
                    s.f.bound(n, len(b), 1 << 56 if pat else 0)
                    for j, (lo, hi) in enumerate(b):
                        s.f.bound(self.el(buf, I(j)), lo, hi)
                    cps = ip.adt(ti, 0, ip.adt(it, 0, ref, ZERO, n))
                    return [mk("ref", s.alloc(cps), ())], b

                def check(o, spec, args):
                    if o.k != "ret":
                        return ("!", "may panic: %s" % o.v)
                    v = ip.deep(o.s, o.v)
                    if v.op != "adt":
                        return ("?", show(v)[:100])
                    if not spec:
                        return None if v.a[1] == 0 else ("!", "a code point after the end")
                    if v.a[1] != 1:
                        return ("!", "no code point")
                    r = self.same_int(o.s, content(v.a[2]), cpval([self.el(buf, I(j)) for j in range(len(spec))]))
                    if r:
                        return r
                    it = content(ip.deep(o.s, args[0]))
                    if it.op != "adt":
                        return ("?", show(it)[:100])
                    return self.same_int(o.s, it.a[3], I(len(spec)))

                self.run("code point: " + name, "wtf::next", setup, check)

    def pushes(self):
        ip = self.ip
        for name, (lo, hi), n in CLASSES:
            if "surrogate" not in name or name[0] in "ab":
                def setup(s, L):
                    S, sr = self.sym(s, "s", L, 0)
                    c = mk("sym", "c", L[2])
                    s.f.bound(c, lo, hi)
                    return [sr, c], mk("seq", ("sp", S), *[("e", x) for x in enc(c, n)])
                self.run("appending the character " + name, "wtf::push_char", setup, self.cont0)
        for tname, pats, whole in ends():
            for box in spots(pats, whole, True):
                for name, (lo, hi), n in CLASSES:
                    def setup(s, L):
                        S, sr = self.sym(s, "s", L, 0)
                        cpx = ip.adt(L[2], 0, mk("sym", "c", self.fty(L[2], 0)))
                        c = cpx.a[2]
                        s.f.bound(c, lo, hi)
                        self.at_end(s.f, S, box, whole, True)
                        if tname == "lead surrogate" and name == "trail surrogate":
                            Ln = mk("len", S)
                            h = cpval([self.el(S, add(Ln, I(-3 + j))) for j in range(3)])
                            want = mk("seq", ("sl", S, ZERO, add(Ln, I(-3))), *[("e", x) for x in enc(pair(h, c), 4)])
                        else:
                            want = mk("seq", ("sp", S), *[("e", x) for x in enc(c, n)])
                        return [sr, cpx], want
                    self.run("appending %s after %s" % (name, tname), "wtf::push", setup, self.cont0)

    def cont0(self, o, want, args):
        if want == "panic":
            return None if o.k == "panic" and "overflow" not in str(o.v) else ("!", "does not panic (%s)" % o.v)
        if o.k != "ret":
            return ("!", "may panic: %s" % o.v)
        return self.same_seq(o.s, self.ip.deep(o.s, args[0]), want)

    def result(self, o, want, args):
        if want == "panic":
            return None if o.k == "panic" and "overflow" not in str(o.v) else ("!", "does not panic (%s)" % o.v)
        if o.k != "ret":
            return ("!", "may panic: %s" % o.v)
        return self.same_seq(o.s, self.ip.deep(o.s, o.v), want)

    def joins(self):
        def setup0(s, L):
            S, sr = self.sym(s, "s", L, 0)
            T, tr = self.sym(s, "t", L, 1)
            return [sr, tr], mk("seq", ("sp", S), ("sp", T))
        self.run("appending text", "wtf::push_str", setup0, self.cont0)
        E = ends()
        for tname, tp, tw in E:
            for hname, hp, hw in E:
                if tname != "lead surrogate" and hname != "trail surrogate" and len(tp) + len(hp) > 2:
                    continue
                for tb in spots(tp, tw, True):
                    for hb in spots(hp, hw, False):
                        def setup(s, L):
                            S, sr = self.sym(s, "s", L, 0)
                            T, tr = self.sym(s, "t", L, 1)
                            self.at_end(s.f, S, tb, tw, True)
                            self.at_end(s.f, T, hb, hw, False)
                            Ls, Lt = mk("len", S), mk("len", T)
                            if tname == "lead surrogate" and hname == "trail surrogate":
                                h = cpval([self.el(S, add(Ls, I(-3 + j))) for j in range(3)])
                                l = cpval([self.el(T, I(j)) for j in range(3)])
                                want = mk("seq", ("sl", S, ZERO, add(Ls, I(-3))), *[("e", x) for x in enc(pair(h, l), 4)], ("sl", T, I(3), Lt))
                            else:
                                want = mk("seq", ("sp", S), ("sp", T))
                            return [sr, tr], want
                        self.run("joining %s with %s" % (tname, hname), "wtf::push_wtf8", setup, self.cont0)

    KINDS = [("the length", 1), ("past the end", 0), ("before ascii", 1), ("inside a code point", 0), ("before a code point", 1)]

    def place(self, f, S, n, kind):
        L = mk("len", S)
        if kind == "the length":
            f.bound(sub(n, L), 0, 0)
        elif kind == "past the end":
            f.bound(sub(n, L), 1, 1 << 56)
        else:
            f.bound(sub(n, L), -(1 << 56), -1)
            lo, hi = {"before ascii": (0, 127), "inside a code point": CONT, "before a code point": (192, 255)}[kind]
            f.bound(self.el(S, n), lo, hi)

    def cuts(self):
        for kind, ok in self.KINDS:
            def setup(s, L):
                S, sr = self.sym(s, "s", L, 0)
                n = mk("sym", "n", L[2])
                self.place(s.f, S, n, kind)
                return [sr, n], mk("seq", ("sl", S, ZERO, n)) if ok else "panic"
            self.run("truncating at %s" % kind, "wtf::truncate", setup, self.cont0)
            self.run("slicing up to %s" % kind, "wtf::range_to", setup, self.result)

            def setup2(s, L):
                a, w = setup(s, L)
                S = mk("sym", "s", self.ip.ty[L[1]]["t"])
                return a, mk("seq", ("sl", S, a[1], mk("len", S))) if ok else "panic"
            self.run("slicing from %s" % kind, "wtf::range_from", setup2, self.result)
            for kind2, ok2 in self.KINDS:
                for order in (0, 1):
                    def setup3(s, L):
                        S, sr = self.sym(s, "s", L, 0)
                        a, b = mk("sym", "a", L[2]), mk("sym", "b", L[3])
                        self.place(s.f, S, a, kind)
                        self.place(s.f, S, b, kind2)
                        s.f.bound(sub(b, a), *((0, 1 << 56) if order == 0 else (-(1 << 56), -1)))
                        return [sr, a, b], mk("seq", ("sl", S, a, b)) if ok and ok2 and order == 0 else "panic"
                    self.run("slicing from %s to %s%s" % (kind, kind2, ", reversed" if order else ""), "wtf::range", setup3, self.result)

    def copies(self):
        ip = self.ip
        for fn in ("new", "from_string", "from_borrowed", "into_bytes", "as_wstr", "as_bytes", "to_owned", "range_full", "clone", "from_str_ref"):
            def setup(s, L):
                S, sr = self.sym(s, "s", L, 0)
                return [sr], mk("seq", ("sp", S))
            self.run("the content of the result of " + fn, "wtf::" + fn, setup, self.result)

        def setup(s, L):
            S, sr = self.sym(s, "s", L, 0)
            return [sr], mk("seq")
        self.run("clearing", "wtf::clear", setup, self.cont0)

        def setup(s, L):
            S, sr = self.sym(s, "s", L, 0)
            T, tr = self.sym(s, "t", L, 1)
            return [sr, tr], mk("seq", ("sp", S))

        def check(o, want, args):
            if o.k != "ret":
                return ("!", "may panic")
            return self.same_seq(o.s, ip.deep(o.s, args[1]), want)
        self.run("cloning into a string", "wtf::clone_into", setup, check)

        def setup(s, L):
            S, sr = self.sym(s, "s", L, 0)
            return [sr], mk("len", S)

        def check(o, want, args):
            if o.k != "ret":
                return ("!", "may panic")
            return self.same_int(o.s, ip.deep(o.s, o.v), want)
        self.run("the length", "wtf::len", setup, check)
        for n in (0, 1):
            def setup(s, L):
                S, sr = self.sym(s, "s", L, 0)
                s.f.bound(mk("len", S), n, (1 << 56) if n else 0)
                return [sr], I(1 - n)
            self.run("emptiness", "wtf::is_empty", setup, check)

        # equality is equality of the content, and hashes agree
        for fn in ("eq_str", "eq", "eq_string", "eq_owned", "eq_borrowed", "eq_owned_str", "eq_ref"):
            def setup(s, L):
                S, sr = self.sym(s, "s", L, 0)
                t = ip.ty[L[2]]["t"]
                if ip.ty[t]["k"] == "ref":
                    T = mk("sym", "t", ip.ty[t]["t"])
                    tr = mk("ref", s.alloc(mk("ref", s.alloc(T), ())), ())
                else:
                    T, tr = self.sym(s, "t", L, 1)
                return [sr, tr], (S, T)

            def check(o, want, args):
                if o.k != "ret":
                    return ("!", "may panic")
                v = ip.deep(o.s, o.v)
                e = ip.mk_eq(o.s.f, *want)
                if v is e or o.s.f.decide(v) is not None and o.s.f.decide(v) == o.s.f.decide(e):
                    return None
                return ("?" if has_unk(v) or v.op not in ("int", "eq", "not", "and", "or") else "!", "compares %s" % show(v)[:150])
            self.run("comparing (%s)" % fn, "wtf::" + fn, setup, check)
        got = {}

        def write(s, vals, dti):
            loc = ip.deref(s, vals[0])
            old = ip.load(s, loc)
            ip.store(s, loc, seq((("sp", old), ("sp", ip.deep(s, vals[1])))))
            return [Out("ret", s, UNIT)]

        def hash_u8(s, vals, dti):
            loc = ip.deref(s, vals[1])
            ip.store(s, loc, seq((("sp", ip.load(s, loc)), ("e", ip.deep(s, vals[0])))))
            return [Out("ret", s, UNIT)]
        for fn in ("hash_str", "hash_string"):
            def setup(s, L):
                S, _ = self.sym(s, "s", L, 0)
                S = mk("sym", "s", self.C.tyid("str"))
                return [mk("ref", s.alloc(S), ()), mk("ref", s.alloc(EMPTY), ())], fn

            def check(o, want, args):
                if o.k != "ret":
                    return ("!", "may panic")
                v = ip.deep(o.s, args[1])
                if has_unk(v):
                    return ("?", show(v)[:100])
                got[want] = v
                if len(got) == 2 and got["hash_str"] is not got["hash_string"]:
                    return ("!", "owned and borrowed strings hash differently: %s, %s" % tuple(show(x)[:100] for x in got.values()))
                if not contains(v, lambda x: x.op == "sym" and x.a[0] == "s"):
                    return ("?", "the hash ignores the string")
                return None
            self.run("hashing (%s)" % fn, "wtf::" + fn, setup, check, {"<wtf::Rec as std::hash::Hasher>::write": write, "core::hash::impls::<impl std::hash::Hash for u8>::hash": hash_u8})

    def scalars(self):
        ip = self.ip

        def one(what, fn, rng, want, ty=None):
            def setup(s, L):
                t = L[1]
                if ip.ty[t]["k"] == "adt":
                    c = mk("sym", "c", self.fty(t, 0))
                    a = ip.adt(t, 0, c)
                else:
                    c = a = mk("sym", "c", t)
                s.f.bound(c, *rng)
                return [a], want(c)

            def check(o, want, args):
                if o.k != "ret":
                    return ("!", "may panic")
                v = ip.deep(o.s, o.v)
                if want is None:
                    return None if v.op == "adt" and v.a[1] == 0 and len(v.a) == 2 else ("!", "%s instead of nothing" % show(v)[:80])
                if v.op == "adt" and "Option" in ip.ty[v.a[0]].get("path", ""):
                    if v.a[1] == 0:
                        return ("!", "nothing instead of %s" % show(want)[:80])
                    v = v.a[2]
                return self.same_int(o.s, content(v), want)
            self.run(what, fn, setup, check)
        for lo, hi in ((0, 0xD7FF), (0xD800, 0xDBFF), (0xDC00, 0xDFFF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF)):
            sur = 0xD800 <= lo <= 0xDFFF
            n = "%x..%x" % (lo, hi)
            one("code point from the number " + n, "wtf::cp_from_u32", (lo, hi), lambda c: c)
            one("number of the code point " + n, "wtf::cp_to_u32", (lo, hi), lambda c: c)
            one("character of the code point " + n, "wtf::cp_to_char", (lo, hi), lambda c: None if sur else c)
            one("lossy character of the code point " + n, "wtf::cp_to_char_lossy", (lo, hi), lambda c: I(0xFFFD) if sur else c)
            if not sur:
                one("code point of the character " + n, "wtf::cp_from_char", (lo, hi), lambda c: c)
        one("code point from a number too large", "wtf::cp_from_u32", (0x110000, 0xFFFFFFFF), lambda c: None)

    def wide(self):
        """UTF-16 of each code point"""
        ip = self.ip
        buf = mk("sym", "s", -1)
        for name, pat in TOK + [("the end", None), ("a pending unit", None)]:
            for b in boxes(pat) if pat else [()]:
                def setup(s, L):
                    ti = ip.ty[L[1]]["t"]
                    cp = self.fty(ti, 0)
                    it = self.fty(cp, 0)
                    ref = mk("ref", s.alloc(buf), ())
                    n = mk("len", buf)
                    if pat:
                        s.f.bound(n, len(b), 1 << 56)
                        for j, (lo, hi) in enumerate(b):
                            s.f.bound(self.el(buf, I(j)), lo, hi)
                    elif name == "the end":
                        s.f.bound(n, 0, 0)
                    ex = ZERO
                    if name == "a pending unit":
                        ex = mk("sym", "x", self.fty(ti, 1))
                        s.f.bound(ex, 0xDC00, 0xDFFF)
                    v = ip.adt(ti, 0, ip.adt(cp, 0, ip.adt(it, 0, ref, ZERO, n)), ex)
                    if name == "the end":
                        want = (None, ZERO, 0)
                    elif ex is not ZERO:
                        want = (ex, ZERO, 0)
                    else:
                        c = cpval([self.el(buf, I(j)) for j in range(len(b))])
                        want = (c, ZERO, len(b))
                        if len(b) == 4:
                            d = add(c, I(-0x10000))
                            want = (add(I(0xD800), bitf(d, 10, 10)), add(I(0xDC00), bitf(d, 0, 10)), 4)
                    return [mk("ref", s.alloc(v), ())], want

                def check(o, want, args):
                    if o.k != "ret":
                        return ("!", "may panic: %s" % o.v)
                    v, st = ip.deep(o.s, o.v), ip.deep(o.s, args[0])
                    if v.op != "adt" or st.op != "adt":
                        return ("?", show(v)[:100])
                    if want[0] is None:
                        return None if v.a[1] == 0 else ("!", "a unit after the end")
                    if v.a[1] != 1:
                        return ("!", "no unit")
                    return (self.same_int(o.s, v.a[2], want[0]) or self.same_int(o.s, st.a[3], want[1])
                            or self.same_int(o.s, content(st.a[2]).a[3], I(want[2])))
                self.run("UTF-16 unit: " + name, "wtf::wide_next", setup, check)

    def lossy(self):
        """conversions to text, for strings with k surrogates between texts"""
        ip = self.ip
        FFFD = ("k", b"\xef\xbf\xbd")
        for k in range(4):
            def mkstr(s):
                pieces, want, pos, marks = [], [], ZERO, []
                for i in range(k + 1):
                    A = mk("sym", "text%d" % i, self.C.tyid("str"))
                    pieces.append(("sp", A))
                    want.append(("sp", A))
                    marks.append((pos, add(pos, mk("len", A))))
                    pos = add(pos, mk("len", A))
                    if i < k:
                        pieces += [("e", mk("sym", "s%d%d" % (i, j), self.u8)) for j in range(3)]
                        want.append(FFFD)
                        pos = add(pos, I(3))
                return seq(pieces), seq(want), marks

            def hook(marks, k):
                def next_surrogate(s, vals, dti):
                    p = vals[1]
                    for i, (a, b) in enumerate(marks):
                        if s.f.value(sub(p, a)) == 0:
                            if i == k:
                                return [Out("ret", s, ip.adt(dti, 0))]
                            t = ip.ty[ip.ty[dti]["args"][0]]
                            return [Out("ret", s, ip.adt(dti, 1, mk("tup", b, mk("sym", "sur", self.C.tyid("u16")))))]
                    return [Out("ret", s, mk("unk", "next_surrogate"))]
                return {"wtf_8::Wtf8Str::next_surrogate": next_surrogate}
            marks = mkstr(None)[2]
            for fn, path in (("to_string_lossy", "wtf_8::alloc_impl::<impl wtf_8::Wtf8Str>::to_string_lossy"), ("into_string_lossy", "wtf::into_string_lossy")):
                def setup(s, L):
                    v, w, _ = mkstr(s)
                    for j in range(k):
                        self.bound_sur(s.f, j)
                    return [mk("ref", s.alloc(v), ()) if ip.ty[L[1]]["k"] == "ref" else v], w
                self.run("%s with %d surrogates" % (fn, k), path, setup, self.result, hook(marks, k))
            for fn in ("as_str", "into_string"):
                def setup(s, L):
                    v, w, _ = mkstr(s)
                    return [mk("ref", s.alloc(v), ()) if ip.ty[L[1]]["k"] == "ref" else v], v

                def check(o, want, args):
                    if o.k != "ret":
                        return ("!", "may panic: %s" % o.v)
                    v = ip.deep(o.s, o.v)
                    if v.op != "adt":
                        return ("?", show(v)[:100])
                    yes = (v.a[1] == 1) if "Option" in ip.ty[v.a[0]]["path"] else v.a[1] == 0
                    if yes != (k == 0):
                        return ("!", "a string with %d surrogates is %s as text" % (k, "accepted" if yes else "refused"))
                    if len(v.a) > 2:
                        return self.same_seq(o.s, v.a[2], want)
                    return None
                self.run("%s with %d surrogates" % (fn, k), "wtf::" + fn, setup, check, hook(marks, k))

    def bound_sur(self, f, j):
        for i, (lo, hi) in enumerate(((0xED, 0xED), (0xA0, 0xBF), CONT)):
            f.bound(mk("sym", "s%d%d" % (j, i), self.u8), lo, hi)

    def collecting(self):
        """collecting and extending append each code point, in order"""
        ip = self.ip

        def push(s, vals, dti):
            loc = ip.deref(s, vals[0])
            ip.store(s, loc, seq((("sp", ip.load(s, loc)), ("e", content(ip.deep(s, vals[1]))))))
            return [Out("ret", s, UNIT)]
        cps = [mk("sym", "c%d" % i, self.C.tyid("u32")) for i in range(3)]
        for fn in ("collect", "extend"):
            def setup(s, L):
                ti = L[1 if fn == "collect" else 2]
                ct = ip.ty[ti]["args"][0]
                v = seq([("e", ip.adt(ct, 0, c)) for c in cps])
                want = [("e", c) for c in cps]
                if fn == "collect":
                    return [v], seq(want)
                S, sr = self.sym(s, "s", L, 0)
                return [sr, v], seq([("sp", S)] + want)
            self.run("%s code points" % fn, "wtf::" + fn, setup, self.result if fn == "collect" else self.cont0, {"wtf_8::Wtf8String::push": push})


class Finder(Explorer):
    def __init__(self, *a):
        super().__init__(*a)
        self.missed = []

    def on_token(self, no, q, m, b, st, app):
        if "surrogate" in m.name:
            self.missed.append(m.name)


def guarded(R, what, ip, fn):
    try:
        return fn()
    except (GiveUp, Budget, Infeasible) as e:
        ip.stack.clear()
        R.undecided(what, "%s %s" % (type(e).__name__, e))
        return None
    finally:
        ip.loop_hook, ip.intercept = None, {}


def validator(R, C, mir):
    ip = C.ip
    what = "validation"
    for ii in insts_of(mir, "wtf_8::validate_wtf8"):
        s = ip.new_state()
        ti = ip.ty[mir["insts"][ii]["locals"][1]]["t"]
        buf = mk("sym", "bytes", ti)
        X = Explorer(ip, ii, buf, ip.ty.elem(ti), wtf8_spec(True), "n")
        ip.loop_hook = X.hook
        ip.steps, ip.max_steps = 0, 3000000
        outs = guarded(R, what, ip, lambda: ip.run_fn(s, ii, [mk("ref", s.alloc(buf), ())]))
        if outs is None:
            return
        R.count("explored tokens", X.nmoves)
        if not X.loops:
            R.undecided(what, "no loop over the bytes was recognised")
            return
        for o in outs:
            no, q, kind, m, b = X.exit_of(o.s)
            where = "validation, after %s%s" % ("the end" if kind == "end" else m.name, " (%s)" % q)
            v = ip.deep(o.s, o.v) if o.k == "ret" else None
            if tainted(o.s):
                R.undecided(where, "unmodelled guards")
            elif o.k != "ret":
                R.bad("validation:panic:%s" % (m.name if m else "end"), "%s: may panic: %s" % (where, o.v))
            elif v.op != "adt":
                R.undecided(where, show(v)[:100])
            elif is_ok(v) and (q == "dead" or m and m.bad):
                R.bad("validation:accepts:%s" % (m.name if m else "end"), "%s: ill-formed bytes are accepted" % where)
            elif not is_ok(v) and not (q == "dead" or m and m.bad):
                R.bad("validation:refuses:%s" % (m.name if m else "end"), "%s: well-formed bytes are refused" % where)
            else:
                R.good(where)
    R.floor("explored tokens", 60)


def checked_entries(R, C, mir, O):
    """constructors from bytes return exactly the validated bytes"""
    ip = C.ip
    for fn in ("from_bytes", "from_bytes_mut", "string_from_bytes"):
        seen = []

        def validate(s, vals, dti):
            seen.append(content(ip.deep(s, vals[0])))
            t = s.copy()
            errti = ip.ty[dti]["args"][1]
            s.cells[("G", "v")] = ONE
            return [Out("ret", s, ip.adt(dti, 0, UNIT)), Out("ret", t, ip.adt(dti, 1, mk("sym", "refused", errti)))]

        def setup(s, L):
            S, sr = O.sym(s, "s", L, 0)
            return [sr], S

        def check(o, S, args):
            if o.k != "ret":
                return ("!", "may panic: %s" % o.v)
            v = ip.deep(o.s, o.v)
            if v.op != "adt":
                return ("?", show(v)[:100])
            if is_ok(v):
                if ("G", "v") not in o.s.cells or S not in seen:
                    return ("!", "bytes that were not validated are returned as a string")
                return O.same_seq(o.s, v.a[2], mk("seq", ("sp", S)))
            return None if ("G", "v") not in o.s.cells else ("!", "valid bytes are refused")
        O.run("bytes to string (%s)" % fn, "wtf::" + fn, setup, check, {"wtf_8::validate_wtf8": validate})


def finder(R, C, mir):
    """the search for surrogates, from any position"""
    ip = C.ip
    what = "search for a surrogate"
    for ii in insts_of(mir, "wtf_8::Wtf8Str::next_surrogate"):
        s = ip.new_state()
        A = mk("sym", "before", -1)
        buf = mk("sym", "rest", C.tyid("str"))
        whole = seq((("sp", A), ("sp", buf)))
        X = Finder(ip, ii, buf, C.tyid("u8"), wtf8_spec(False), "n")
        ip.loop_hook = X.hook
        ip.steps, ip.max_steps = 0, 3000000
        outs = guarded(R, what, ip, lambda: ip.run_fn(s, ii, [mk("ref", s.alloc(whole), ()), mk("len", A)]))
        if outs is None:
            return
        if not X.loops:
            R.undecided(what, "no loop over the bytes was recognised")
            return
        R.count("explored tokens", X.nmoves)
        for m in X.missed:
            R.bad("surrogate:missed", "%s: a %s is passed over" % (what, m))
        for o in outs:
            no, q, kind, m, b = X.exit_of(o.s)
            where = "%s, %s" % (what, "at the end" if kind == "end" else m.name)
            if tainted(o.s):
                R.undecided(where, "unmodelled guards")
                continue
            if o.k != "ret":
                R.bad("surrogate:panic", "%s: may panic: %s" % (where, o.v))
                continue
            v = ip.deep(o.s, o.v)
            if v.op != "adt":
                R.undecided(where, show(v)[:100])
            elif v.a[1] == 0:
                if kind == "end":
                    R.good(where)
                else:
                    R.bad("surrogate:none", "%s: the search stops there" % where)
            elif kind == "end" or "surrogate" not in m.name:
                R.bad("surrogate:false", "%s: reported as a surrogate" % where)
            else:
                O = Ops(R, C, mir)
                P = mk("sym", "P%d" % no, X.P.a[1])
                if any(str(x.a[0]).startswith("cnt") for x, _ in lin_parts(v.a[2].a[0])[1]):
                    R.bad("surrogate:position", "%s: the position reported does not advance with the code points passed" % where)
                    continue
                r = O.same_int(o.s, v.a[2].a[0], add(mk("len", A), P)) or O.same_int(
                    o.s, v.a[2].a[1], cpval([mk("elem", buf, add(P, I(j)), C.tyid("u8")) for j in range(3)]))
                O.report(where, o, r)


class Wide(Trans):
    pass


def from_wide(R, C, mir):
    """UTF-16 to string: the bytes each unit or pair of units adds"""
    ip = C.ip
    what = "from UTF-16"
    HI, LO = (0xD800, 0xDBFF), (0xDC00, 0xDFFF)
    one = lambda n: lambda e: enc(e[0], n)
    NOTLOW = [(0, 0xDBFF), (0xE000, 0xFFFF)]
    S = {"n": [
        Move("ascii", [[(0, 0x7F)]], "n", one(1)), Move("two bytes", [[(0x80, 0x7FF)]], "n", one(2)),
        Move("three bytes", [[(0x800, 0xD7FF), (0xE000, 0xFFFF)]], "n", one(3)),
        Move("trail surrogate", [[LO]], "n", one(3)),
        Move("lead surrogate at the end", [[HI]], "n", one(3), la="end"),
        Move("lead surrogate", [[HI]], "n", one(3), la=[NOTLOW]),
        Move("surrogate pair", [[HI], [LO]], "n", lambda e: enc(pair(e[0], e[1]), 4)),
    ]}
    for ii in insts_of(mir, "wtf_8::Wtf8String::from_wide"):
        s = ip.new_state()
        ti = ip.ty[mir["insts"][ii]["locals"][1]]["t"]
        buf = mk("sym", "units", ti)
        X = Trans(ip, ii, buf, ip.ty.elem(ti), S, "n")
        X.init()
        ip.loop_hook = X.hook
        ip.steps, ip.max_steps = 0, 3000000
        outs = guarded(R, what, ip, lambda: ip.run_fn(s, ii, [mk("ref", s.alloc(buf), ())]))
        if outs is None:
            return
        R.count("explored tokens", X.nmoves)
        if not X.loops:
            R.undecided(what, "no loop over the units was recognised")
            return
        from c07 import encoded
        for o in outs:
            e = X.exit_of(o.s)
            where = "%s, %s" % (what, "at the end" if e[2] == "end" else e[3].name)
            if tainted(o.s):
                R.undecided(where, "unmodelled guards")
            elif o.k != "ret":
                R.bad("from UTF-16:panic", "%s: may panic: %s" % (where, o.v))
            else:
                encoded(X, R, what, where, content(ip.deep(o.s, o.v)), e[1], e[2], e)


def run(R, mir):
    C = Codecs(mir)
    C.ip.real = ("wtf_8", "coffer_probe")
    C.ip.fork_asserts = True
    validator(R, C, mir)
    O = Ops(R, C, mir)
    checked_entries(R, C, mir, O)
    finder(R, C, mir)
    from_wide(R, C, mir)
    O.codepoints()
    O.pushes()
    O.joins()
    O.cuts()
    O.copies()
    O.scalars()
    O.wide()
    O.lossy()
    O.collecting()
    R.floor("analysed cases", 300)
