"""Text as a lazily refined sequence of characters.

A text is a cell ("T", id) holding `units(closed, unit...)`; a unit is ("c", character term) or
("rest", value): what follows the first character of a nested construct that another function
parses. A text value is `txt(id, from, to)` (positions in units, to = -1: to the end). Looking at
a character that is not known yet forks: there is one, or the text ends."""
from terms import *
from state import Infeasible
from interp import Out

CUR = ("std::str::Chars", "std::str::Bytes", "std::str::CharIndices")


class Truncated(Infeasible):
    pass


class Texts:
    def __init__(self, C, limit):
        self.C, self.ip, self.M, self.ty = C, C.ip, C.ip.models, C.ip.ty
        self.limit = limit
        self.nts = {}     # function instance -> type path of the construct it parses
        self.sink = None
        self.root = None
        self.chain = ()   # nested parsers to run for real, outermost first
        self.guide = ()   # ranges of the characters of the texts to look at
        self.calls = {}   # nested parsers each parser was seen to call
        self.seen = {}
        C.ip.atoms[:] = [self.atom]
        C.ip.models.texts = self
        C.ip.unroll = 400
        C.ip.unroll_cap = 100000

    # ------------------------------------------------------------ texts
    def new(self, s, chars=None):
        s.cells[("T", 0)] = mk("units", 1 if chars is not None else 0, *[("c", I(ord(c))) for c in chars or ()])
        return mk("ref", ("O", mk("txt", 0, 0, -1)), ())

    def units(self, s, t):
        return s.cells[("T", t)].a[1:]

    def closed(self, s, t):
        return s.cells[("T", t)].a[0]

    def tx(self, s, v):
        for _ in range(6):
            if v.op == "txt":
                return v
            if v.op != "ref":
                return None
            try:
                v = self.ip.load(s, (v.a[0], v.a[1]))
            except Exception:
                return None
        return None

    def ref(self, v):
        return mk("ref", ("O", v), ())

    def peek(self, s, v, k=None):
        """[(state, unit | None)]"""
        t, a, b = v.a
        k = a if k is None else k
        if b >= 0 and k >= b:
            return [(s, None)]
        us = self.units(s, t)
        if k < len(us):
            return [(s, us[k])]
        if self.closed(s, t):
            return [(s, None)]
        if k > len(us):
            raise Truncated
        end = s.copy()
        end.cells[("T", t)] = mk("units", 1, *us)
        res = []
        if len(us) < self.limit:
            c = self.char(s, t, k)
            s.cells[("T", t)] = mk("units", 0, *us, ("c", c))
            res.append((s, ("c", c)))
        return res + [(end, None)]

    def char(self, s, t, k):
        c = mk("sym", "c%d_%d" % (t, k), self.C.tyid("u32"))
        lo, hi = (self.guide[k] if k < len(self.guide) else None) or (0, 0x10FFFF)
        s.f.bound(c, lo, hi)
        return c

    def width(self, s, c):
        lo, hi = s.f.range(c)
        for n, x, y in ((1, 0, 0x7F), (2, 0x80, 0x7FF), (3, 0x800, 0xFFFF), (4, 0x10000, 0x10FFFF)):
            if lo >= x and hi <= y:
                return I(n)
        w = mk("app", "wid", c, self.C.tyid("u8"))
        s.f.bound(w, 1 if lo < 0x80 else 2, 4)
        return w

    def at(self, s, v, off):
        """positions at byte offset off of the text: [(state, position | None | ("in", position, byte))];
        None: beyond the end"""
        work, res = [(s, v.a[1], ZERO)], []
        while work:
            s, k, acc = work.pop()
            d = sub(off, acc)
            lo, hi = s.f.range(d)
            if lo == hi == 0:
                res.append((s, k))
                continue
            if hi < 0:
                raise Truncated  # not reached: handled with the width of the unit
            for s2, u in self.peek(s, v, k):
                if u is None:
                    res.append((s2, None))
                    continue
                if u[0] != "c":
                    raise Truncated
                w = self.width(s2, u[1])
                d2 = sub(off, add(acc, w))
                lo, hi = s2.f.range(d2)
                if hi < 0 and lo > -4 and isint(w) and isint(d2):
                    res.append((s2, ("in", k, w.a[0] + d2.a[0])))
                elif lo >= 0 or d2 is ZERO:
                    work.append((s2, k + 1, add(acc, w)))
                elif isint(w):
                    raise Truncated
                else:  # the width matters
                    one = self.wide(s2, v.a[0], u[1])
                    for x, y in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF)):
                        if one and x:
                            break
                        s3 = s2.copy()
                        try:
                            s3.f.bound(u[1], x, y)
                        except Infeasible:
                            continue
                        work.append((s3, k, acc))
        return res

    def offset(self, s, v, k):
        r = ZERO
        for u in self.units(s, v.a[0])[v.a[1]:k]:
            if u[0] != "c":
                return None
            r = add(r, self.width(s, u[1]))
        return r

    def content(self, s, v):
        """String with the characters of a closed range"""
        t, a, b = v.a
        us = self.units(s, t)
        if b < 0:
            if not self.closed(s, t):
                return None
            b = len(us)
        r = []
        for u in us[a:b]:
            if u[0] != "c":
                return None
            r.append(("e", u[1]))
        return mk("seq", *r) if r else EMPTY

    # ------------------------------------------------------------ iterators
    def item(self, s, v, ti, c):
        nm = self.ty.path(ti) if self.ty[ti]["k"] == "adt" else ""
        if nm.endswith("Wtf8CodePoints"):
            return None
        return c

    def iter_next(self, s, loc, v, ti):
        ip = self.ip
        nm = self.ty[ti].get("path", "").split("::")[-1]
        if nm == "Bytes":
            return None
        res = []
        for s2, u in self.peek(s, v):
            if u is None:
                res.append((s2, None))
                continue
            if u[0] != "c":
                raise Truncated
            t, a, b = v.a
            off = None
            if nm == "CharIndices":
                off = self.offset(s2, mk("txt", t, 0, -1), a)
                if off is None:
                    raise Truncated
            ip.store(s2, loc, mk("txt", t, a + 1, b))
            res.append((s2, u[1] if off is None else mk("tup", off, u[1])))
        return res

    # ------------------------------------------------------------ calls
    def atom(self, ip, s, f, a, dti, site):
        M = self.M
        p = f.get("rpath") or f["path"]
        name = f.get("rname") or f.get("name") or p.split("::")[-1]
        if p.endswith("::unreachable_unchecked"):
            return [Out("panic", s, "unreachable_unchecked")]
        if self.sink is not None:
            r = self.sinks(s, f, a, dti, site, p, name)
            if r is not None:
                return r
        if (p.startswith("std::string::String") or "Wtf8String" in p) and name in ("push", "push_char") and len(a) == 2 and a[0].op == "ref":
            c = a[1]
            if c.op == "adt":
                c = c.a[2]
            loc = M.loc(s, a[0])
            old = self.plain(ip.load(s, loc))
            if old is not None:
                ip.store(s, loc, seq((("sp", old), ("e", c))))
                return M.ret(s, UNIT)
        if "Wtf8String" in p and name in ("new", "default", "with_capacity", "with_capacity_bytes"):
            return M.ret(s, EMPTY)
        vs = [self.tx(s, x) for x in a]
        if not any(v is not None for v in vs):
            return None
        if "inst" in f and f.get("rcrate", f["crate"]) == "coffer" and name != "from_str" and not f.get("trait"):
            r = self.nonterminal(s, f, a, vs, dti)
            if r is not None:
                return r
        v = vs[0]
        m = getattr(self, "x_" + name, None)
        tr = (f.get("rtrait") or f.get("trait") or "").split("::")[-1].split("<")[0]
        foreign = f.get("rcrate", f["crate"]) not in ("coffer", "coffer_probe")
        if not foreign:
            return None
        if tr == "Iterator" and name == "next":
            if "Wtf8CodePoints" in p or "Wtf8CodePoints" in self.ty.s(f.get("rself", f.get("self", 0))):
                cp = self.ty[dti]["args"][0]
                r = self.iter_next(s, M.loc(s, a[0]), v, -1 if False else f.get("rself", f.get("self")))
                return M.outs(*[(x, M.none(dti) if c is None else M.some(dti, ip.adt(cp, 0, c))) for x, c in r])
            return None
        if tr == "PartialEq" and len(a) == 2:
            return self.eq(s, a, name, site)
        if tr in ("Deref", "AsRef", "Borrow") or name in ("as_str", "as_ref"):
            if v is not None:
                return M.ret(s, self.ref(v))
        if tr == "Clone" and v is not None:
            return M.ret(s, v if a[0].op == "ref" and ip.load(s, M.loc(s, a[0])).op == "txt" else a[0])
        if tr in ("Index",) and v is not None:
            return self.x_index(s, a, v, dti, site)
        if tr in ("ToString", "ToOwned", "Into", "From") or name in ("to_vec", "into_owned", "to_wtf8_string"):
            c = self.content(s, v) if v is not None else None
            if c is None:
                return None
            return M.ret(s, c if self.ty[dti]["k"] != "ref" else a[0])
        if m is not None and v is not None:
            return m(s, a, v, dti, site)
        if name == "push_str" or name == "push_wtf8":
            c = self.content(s, vs[1]) if vs[1] is not None else None
            if c is not None:
                loc = M.loc(s, a[0])
                ip.store(s, loc, seq((("sp", self.plain(ip.load(s, loc))), ("sp", c))))
                return M.ret(s, UNIT)
        return None

    def plain(self, v):
        """the content of a string value"""
        for _ in range(4):
            if v.op == "adt" and len(v.a) == 3:
                v = v.a[2]
        return v

    def x_chars(self, s, a, v, dti, site):
        return self.M.ret(s, v)

    x_char_indices = x_codepoints = x_code_points = x_bytes = x_chars

    def x_as_bytes(self, s, a, v, dti, site):
        return self.M.ret(s, self.ref(v))

    def x_is_empty(self, s, a, v, dti, site):
        return self.M.outs(*[(x, ZERO if u else ONE) for x, u in self.peek(s, v)])

    def x_len(self, s, a, v, dti, site):
        t, x, y = v.a
        if y < 0:
            if not self.closed(s, t):
                return None
            y = len(self.units(s, t))
        r = self.offset(s, v, y)
        return None if r is None else self.M.ret(s, r)

    def byte(self, s, v, off):
        """[(state, byte | None)]"""
        res = []
        for s2, k in self.at(s, v, off):
            if k is None:
                res.append((s2, None))
                continue
            if isinstance(k, tuple):
                c, i = self.units(s2, v.a[0])[k[1]][1], k[2]
                b = mk("app", "u8b", c, i, self.C.tyid("u8"))
                s2.f.bound(b, 0x80, 0xBF)
                res.append((s2, b))
                continue
            for s3, u in self.peek(s2, v, k):
                if u is None:
                    res.append((s3, None))
                    continue
                if u[0] != "c":
                    raise Truncated
                s4 = None if self.wide(s3, v.a[0], u[1]) else s3.copy()
                try:
                    s3.f.bound(u[1], 0, 0x7F)
                    res.append((s3, u[1]))
                except Infeasible:
                    pass
                try:
                    if s4 is None:
                        continue
                    s4.f.bound(u[1], 0x80, 0x10FFFF)
                    b = mk("app", "u8b", u[1], 0, self.C.tyid("u8"))
                    s4.f.bound(b, 0xC2, 0xF4)
                    res.append((s4, b))
                except Infeasible:
                    pass
        return res

    def wide(self, s, t, c):
        """another character is already beyond ASCII: one is enough"""
        return any(u[0] == "c" and u[1] is not c and s.f.range(u[1])[0] >= 0x80 for u in self.units(s, t))

    def x_first(self, s, a, v, dti, site):
        M = self.M
        return M.outs(*[(x, M.none(dti) if b is None else M.some(dti, self.ref(b))) for x, b in self.byte(s, v, ZERO)])

    def x_get(self, s, a, v, dti, site):
        M = self.M
        i = a[1]
        if i.op == "adt":
            res = []
            for x, r in self.sliced(s, v, i):
                res.append((x, M.none(dti) if r is None else M.some(dti, self.ref(r))))
            return M.outs(*res)
        return M.outs(*[(x, M.none(dti) if b is None else M.some(dti, self.ref(b))) for x, b in self.byte(s, v, i)])

    def sliced(self, s, v, rng):
        """[(state, text | None)]"""
        rp = self.ty.path(rng.a[0]).split("::")[-1]
        fs = rng.a[2:]
        t, a, b = v.a
        if rp == "RangeFull":
            return [(s, v)]
        lo = fs[0] if rp in ("Range", "RangeFrom") else ZERO
        hi = {"Range": 1, "RangeTo": 0}.get(rp)
        if hi is None and rp != "RangeFrom":
            raise Truncated
        res = []
        for s2, k in self.at(s, v, lo):
            if not isinstance(k, int):
                res.append((s2, None))
                continue
            if hi is None:
                res.append((s2, mk("txt", t, k, b)))
                continue
            for s3, j in self.at(s2, v, fs[hi]):
                if not isinstance(j, int) or j < k:
                    res.append((s3, None))
                else:
                    res.append((s3, mk("txt", t, k, j)))
        return res

    def x_index(self, s, a, v, dti, site):
        i = a[1]
        if i.op == "adt":
            return [Out("ret", x, self.ref(r)) if r is not None else Out("panic", x, "slice out of range or inside a character") for x, r in self.sliced(s, v, i)]
        return [Out("ret", x, self.ref(b)) if b is not None else Out("panic", x, "index out of bounds") for x, b in self.byte(s, v, i)]

    def matches(self, s, u, pat):
        """[(state, bool)] whether the character matches a pattern (a character or a predicate)"""
        if pat.op == "clo" or pat.op == "fn" or (pat.op == "ref" and self.M.val(s, pat).op == "clo"):
            res = []
            for o in self.M.apply(s, pat, [u[1]]):
                if o.k != "ret":
                    raise Truncated
                res += [(st, v) for v, st in self.ip.branch(o.s, o.v)]
            return res
        if pat.op in ("int", "sym"):
            return [(st, v) for v, st in self.ip.branch(s, self.ip.eq0(s.f, sub(u[1], pat)))]
        raise Truncated

    def pattern(self, s, x):
        if x.op in ("int", "sym", "clo", "fn"):
            return x
        v = self.M.val(s, x)
        if v.op == "clo":
            return x
        b = const_bytes(self.ip.deep(s, v))
        if b is not None and len(b) == 1:
            return I(b[0])
        raise Truncated

    def x_find(self, s, a, v, dti, site):
        M = self.M
        pat = self.pattern(s, a[1])
        work, res = [(s, v.a[1])], []
        while work:
            s, k = work.pop()
            for s2, u in self.peek(s, v, k):
                if u is None:
                    res.append((s2, M.none(dti)))
                    continue
                if u[0] != "c":
                    raise Truncated
                for s3, m in self.matches(s2, u, pat):
                    if m:
                        res.append((s3, M.some(dti, self.offset(s3, v, k))))
                    else:
                        work.append((s3, k + 1))
        return M.outs(*res)

    def x_starts_with(self, s, a, v, dti, site):
        pat = self.pattern(s, a[1])
        res = []
        for s2, u in self.peek(s, v):
            if u is None:
                res.append((s2, ZERO))
            elif u[0] != "c":
                raise Truncated
            else:
                res += [(s3, ONE if m else ZERO) for s3, m in self.matches(s2, u, pat)]
        return self.M.outs(*res)

    def x_ends_with(self, s, a, v, dti, site):
        pat = self.pattern(s, a[1])
        t, x, y = v.a
        if y < 0:
            return None
        if x >= y:
            return self.M.outs((s, ZERO))
        u = self.units(s, t)[y - 1]
        if u[0] != "c":
            raise Truncated
        return self.M.outs(*[(s3, ONE if m else ZERO) for s3, m in self.matches(s, u, pat)])

    def x_strip_prefix(self, s, a, v, dti, site):
        pat = self.pattern(s, a[1])
        M = self.M
        res = []
        t, x, y = v.a
        for s2, u in self.peek(s, v):
            if u is None:
                res.append((s2, M.none(dti)))
            elif u[0] != "c":
                raise Truncated
            else:
                for s3, m in self.matches(s2, u, pat):
                    res.append((s3, M.some(dti, self.ref(mk("txt", t, x + 1, y))) if m else M.none(dti)))
        return M.outs(*res)

    def x_split_at(self, s, a, v, dti, site):
        t, x, y = v.a
        res = []
        for s2, k in self.at(s, v, a[1]):
            if not isinstance(k, int):
                res.append(Out("panic", s2, "split inside a character or beyond the end"))
            else:
                res.append(Out("ret", s2, mk("tup", self.ref(mk("txt", t, x, k)), self.ref(mk("txt", t, k, y)))))
        return res

    def x_split_once(self, s, a, v, dti, site):
        M = self.M
        pat = self.pattern(s, a[1])
        t, x, y = v.a
        work, res = [(s, x)], []
        while work:
            s, k = work.pop()
            for s2, u in self.peek(s, v, k):
                if u is None:
                    res.append((s2, M.none(dti)))
                    continue
                if u[0] != "c":
                    raise Truncated
                for s3, m in self.matches(s2, u, pat):
                    if m:
                        res.append((s3, M.some(dti, mk("tup", self.ref(mk("txt", t, x, k)), self.ref(mk("txt", t, k + 1, y))))))
                    else:
                        work.append((s3, k + 1))
        return M.outs(*res)

    def eq(self, s, a, name, site):
        """comparison with another text or a constant"""
        ip = self.ip
        x, y = self.tx(s, a[0]), self.tx(s, a[1])
        if x is not None and y is not None:
            return None
        v, o = (x, a[1]) if x is not None else (y, a[0])
        if v is None:
            return None
        b = const_bytes(ip.deep(s, o))
        if b is None or any(q > 127 for q in b):
            return None
        work, res = [(s, 0)], []
        while work:
            s, i = work.pop()
            for s2, u in self.peek(s, v, v.a[1] + i):
                if u is None or i == len(b):
                    res.append((s2, ONE if u is None and i == len(b) else ZERO))
                    continue
                if u[0] != "c":
                    raise Truncated
                for e, s3 in ip.branch(s2, ip.eq0(s2.f, sub(u[1], I(b[i])))):
                    if e:
                        work.append((s3, i + 1))
                    else:
                        res.append((s3, ZERO))
        return self.M.outs(*[(st, r if name == "eq" else I(1 - r.a[0])) for st, r in res])

    # ------------------------------------------------------------ nested parsers
    def shape(self, ii):
        """(type path, index of the text argument, "rest" | "cursor") if the function may parse one construct"""
        x = self.ip.insts[ii]
        if ii in self.seen:
            return self.seen[ii]
        r = None
        t = self.ty[x["locals"][0]]
        if t.get("path") == "std::result::Result":
            ok = self.ty[t["v"][0]["f"][0][1]]
            args = [self.ty[q] for q in x["locals"][1:1 + x["argc"]]]
            if len(args) == 1 and args[0]["k"] == "ref":
                inner = self.ty[args[0]["t"]]
                if ok["k"] == "tuple" and inner["k"] == "str":
                    el = ok.get("ts") or ok.get("args") or ok.get("e") or ok.get("f")
                    if el and len(el) == 2:
                        for i in (0, 1):
                            q, w = self.ty[el[i]], self.ty[el[1 - i]]
                            if q["k"] == "ref" and self.ty[q["t"]]["k"] == "str" and w["k"] == "adt" and w.get("crate") == "coffer":
                                r = (w["path"], el[1 - i], ("rest", i))
                elif args[0].get("mut") and ok["k"] == "adt" and ok.get("crate") == "coffer":
                    r = (ok["path"], t["v"][0]["f"][0][1], ("cursor",))
        self.seen[ii] = r
        return r

    def nonterminal(self, s, f, a, vs, dti):
        ii = f["inst"]
        if ii == self.root and not self.ip.stack:
            return None
        if ii not in self.nts:
            return None
        up = [x[0] for x in self.ip.stack if x[0] in self.nts or x[0] == self.root]
        if up:
            self.calls.setdefault(up[-1], set()).add(ii)
        if self.chain and tuple(up) + (ii,) == self.chain[:len(up) + 1] and ("inlined", ii) not in s.ev:
            s.ev += (("inlined", ii),)
            return None
        sh = self.shape(ii)
        v = vs[0]
        if sh is None or v is None:
            return None
        t, k, b = v.a
        us = self.units(s, t)
        if b >= 0 or self.closed(s, t) or len(us) - k > 1:
            return None
        ip, M = self.ip, self.M
        if k > len(us):
            raise Truncated
        first = self.nts[ii]
        bad = s.copy()
        bad.tags += ("ntfail",)
        bad.ev += (("ntfail", sh[0], k),)
        res = [(bad, M.err(dti, mk("opaque", "Error")))]
        if len(us) + (1 if len(us) > k else 2) <= self.limit + 1:
            try:
                if len(us) == k:
                    c = self.char(s, t, k)
                    us = us + (("c", c),)
                c = us[k][1]
                X = mk("sym", "X%d_%d" % (t, k), sh[1])
                states = [s]
                if first is not None and s.f.value(c) is None:
                    fs = [q for q in first if s.f.decide(mk("eq0", sub(c, I(ord(q))))) != 0]
                    if not fs:
                        raise Infeasible
                    s.f.bound(c, min(map(ord, fs)), max(map(ord, fs)))
                elif first is not None and chr(s.f.value(c)) not in first:
                    raise Infeasible
                s.cells[("T", t)] = mk("units", 0, *us, ("rest", X))
                nv = mk("txt", t, k + 2, b)
                if sh[2][0] == "rest":
                    pair = [None, None]
                    pair[sh[2][1]], pair[1 - sh[2][1]] = self.ref(nv), X
                    r = mk("tup", *pair)
                else:
                    ip.store(s, M.loc(s, a[0]), nv)
                    r = X
                res.append((s, M.ok(dti, r)))
            except Infeasible:
                pass
        return M.outs(*res)

    # ------------------------------------------------------------ printers
    def to_sink(self, s, v):
        if v.op != "ref":
            return False
        try:
            l = self.M.loc(s, v)
        except Exception:
            return False
        for _ in range(3):
            if l == self.sink:
                return True
            x = self.ip.load(s, l)
            if x.op != "ref":
                return False
            l = (x.a[0], x.a[1])
        return False

    def emit(self, s, *pieces):
        ip = self.ip
        c = self.sink
        ip.store(s, c, seq((("sp", ip.load(s, c)),) + pieces))

    def sinks(self, s, f, a, dti, site, p, name):
        M, ip = self.M, self.ip
        last = p.split("::")[-1]
        if "fmt::rt::Argument" in p and last.startswith("new_"):
            return M.ret(s, mk("fmtarg", last[4:], a[0]))
        if p.startswith("std::fmt::Arguments") or p.startswith("core::fmt::Arguments"):
            if last in ("new", "from_str", "from_str_nonconst", "new_const"):
                return M.ret(s, mk("fmtargs", *[ip.deep(s, x) if x.op == "ref" else x for x in a]))
        if name == "to_string_lossy":
            return M.ret(s, mk("app", "lossy", self.text(s, a[0]), -1))
        if name == "repeat" and len(a) == 2:
            b = const_bytes(ip.deep(s, a[0]))
            if b is not None and len(b) == 1:
                return M.ret(s, seq((("rep", I(b[0]), a[1]),)))
        k = [i for i, x in enumerate(a) if self.to_sink(s, x)]
        if not k:
            return None
        other = [x for i, x in enumerate(a) if i != k[0]]
        ok = lambda: M.ret(s, M.ok(dti, UNIT)) if self.ty.path(dti) == "std::result::Result" else M.ret(s, UNIT)
        tr = (f.get("rtrait") or f.get("trait") or "").split("::")[-1].split("<")[0]
        if len(other) != 1:
            return None
        x = other[0]
        if name in ("write_char", "push_char", "push"):
            self.emit(s, ("e", x.a[2] if x.op == "adt" else x))
            return ok()
        if name in ("write_str", "push_str", "push_wtf8", "pad"):
            self.emit(s, ("sp", self.text(s, x)))
            return ok()
        if name == "write_fmt":
            return ok() if self.expand(s, x) else None
        if tr == "Display" and name == "fmt":
            st = f.get("rself", f.get("self"))
            return self.display(s, f, x, st, ok)
        if "inst" in f and f["inst"] == self.root:
            self.emit(s, ("e", mk("disp", ip.deep(s, self.M.val(s, x)))))
            return ok()
        return None

    def text(self, s, x):
        v = self.ip.deep(s, x)
        for _ in range(4):
            if v.op == "adt" and len(v.a) == 3:
                v = v.a[2]
        return v

    def display(self, s, f, x, st, ok):
        t = self.ty[st] if st is not None else {}
        while t.get("k") == "ref" or t.get("path") == "std::boxed::Box":
            t = self.ty[t["t"] if t["k"] == "ref" else t["args"][0]]
        if t.get("k") == "str" or t.get("path") in ("std::string::String", "std::borrow::Cow"):
            self.emit(s, ("sp", self.text(s, x)))
            return ok()
        if t.get("k") == "char":
            self.emit(s, ("e", self.ip.deep(s, x)))
            return ok()
        if t.get("crate") == "coffer":
            if "inst" in f and f["inst"] == self.root and not self.ip.stack:
                return None
            self.emit(s, ("e", mk("disp", self.ip.deep(s, x))))
            return ok()
        return None

    def expand(self, s, x):
        if x.op == "ref":
            x = self.M.val(s, x)
        if x.op != "fmtargs":
            return False
        if len(x.a) == 1:
            self.emit(s, ("sp", x.a[0]))
            return True
        b = const_bytes(x.a[0])
        args = x.a[1]
        if b is None or args.op != "seq":
            return False
        args = [p[1] for p in args.a if p[0] == "e"]
        i, n = 0, 0
        out = []
        while i < len(b):
            c = b[i]
            if c == 0:
                break
            if c < 0x80:
                out.append(("k", bytes(b[i + 1:i + 1 + c])))
                i += 1 + c
            elif c == 0x80:
                ln = b[i + 1] | b[i + 2] << 8
                out.append(("k", bytes(b[i + 3:i + 3 + ln])))
                i += 3 + ln
            elif c == 0xC0:
                if n >= len(args) or args[n].op != "fmtarg" or args[n].a[0] != "display":
                    return False
                out.append(args[n])
                n += 1
                i += 1
            else:
                return False
        for o in out:
            if isinstance(o, tuple):
                self.emit(s, ("sp", mk("seq", o)))
            else:
                v = self.ip.deep(s, o.a[1])
                self.emit(s, ("e", mk("disp", v)))
        return True


def const_bytes(v):
    for _ in range(4):
        if v.op == "adt" and len(v.a) == 3:
            v = v.a[2]
    if v is EMPTY:
        return b""
    if v.op != "seq":
        return None
    r = b""
    for p in v.a:
        if p[0] == "k":
            r += bytes(p[1])
        elif p[0] == "e" and isint(p[1]) and 0 <= p[1].a[0] < 256:
            r += bytes([p[1].a[0]])
        else:
            return None
    return r
