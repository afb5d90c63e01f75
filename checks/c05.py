"""C05: a whole class file."""
from codec import Codecs, has_unk, tainted
from interp import Budget, Out
from state import Infeasible
from terms import *
from wire import V, match_path, Mismatch, Unknown
import c02  # noqa: layouts

RULE = (
    "The class writer is abstractly interpreted on classes with arbitrary version, flags, names, interfaces, fields and "
    "methods (lists of any length) and every sequence of up to three attributes of any kind; writing a member, attribute or "
    "bootstrap method may add further bootstrap methods (every such choice, up to two). The emitted grammar is matched with the "
    "ClassFile layout of the specification and read by the class reader; the value read, the bootstrap methods handed to the "
    "pool for resolution and the order of pool insertions and pool output are compared with what was written."
)
ASSUMPTIONS = [
    "members, attributes, flags and versions are written and read back as decided by C01 and C02",
    "constant pool insertion and lookup as decided by C06",
    "a raw attribute is not named like a recognised one",
]


class ClassFile:
    def __init__(self, R, mir):
        self.R, self.mir = R, mir
        self.C = C = Codecs(mir)
        self.ip = ip = C.ip
        self.M = ip.models
        self.key = [k for k in C.index if k[1].endswith("::Class") and k[0] == "ReadWrite"][0]
        self.wi, self.ri = C.index[self.key]["write_to"][0], C.index[self.key]["read_from"][0]
        self.ti = mir["insts"][self.wi]["self"]
        self.fields = ip.ty[self.ti]["v"][0]["f"]
        self.aty = ip.ty.elem(dict(self.fields)["attributes"])
        self.bi = [v["n"] for v in ip.ty[self.aty]["v"]].index("BootstrapMethods")
        self.blist = ip.ty[self.aty]["v"][self.bi]["f"][0][1]
        self.bty = ip.ty.elem(self.blist)
        self.cpw = [i for i, t in enumerate(ip.ty.t) if t["k"] == "adt" and t["path"].endswith("::cp::VecCp")]
        C.entry_ty = [i for i, t in enumerate(ip.ty.t) if t["k"] == "adt" and t["path"].endswith("::RawConstantEntry")][0]
        ip.nofail = True
        ip.max_steps = 600000
        ip.assume_lengths = False
        ip.atoms.insert(0, self.atom)
        self.adds = 0
        self.bfield = None
        if self.cpw:
            for i, (n, t) in enumerate(ip.ty[self.cpw[0]]["v"][0]["f"]):
                if ip.ty[t].get("path") == "std::vec::Vec" and ip.ty.elem(t) == self.bty:
                    self.bfield = i

    # ------------------------------------------------------------ the pool as seen by the class codec
    def atom(self, ip, s, f, a, dti, site):
        tr = (f.get("trait") or f.get("rtrait") or "").split("::")[-1].split("<")[0]
        name = f.get("rname") or f.get("name")
        C, M = self.C, self.M
        if tr == "ConstantPoolWriter" and name == "insert_raw":
            s.ev += (("ins", show(ip.deep(s, a[1]))[:80]),)
            return None
        if tr == "ConstantPoolReader" and name == "bootstrap_methods":
            s.ev += (("bsms", ip.deep(s, M.val(s, a[1]))),)
            bad = s.copy()
            bad.tags += ("bsmerr",)
            return M.outs((s, M.ok(dti, UNIT)), (bad, M.err(dti, mk("opaque", "Error"))))
        k = C.nt_name(f)
        if k is None:
            return None
        tr, ts, name, st = k
        if name == "write_to" and ts.endswith("::VecCp"):
            s.ev += (("pool",),)
            return None
        if name == "read_from" and ts.endswith("::MapCp"):
            loc = C.source_loc(s, M.loc(s, a[-1]))
            if loc is not None:
                v = ip.load(s, loc)
                if v.op == "src" and v.a and v.a[0][0] == "nt" and v.a[0][1][1].endswith("::VecCp"):
                    ip.store(s, loc, mk("src", *v.a[1:]))
                    return M.ret(s, M.ok(dti, mk("sym", "read pool", st)))
            return None
        if name == "write_to" and tr == "ConstantPoolReadWrite" and len(a) == 3:
            s.ev += (("ins", ts),)
            n = sum(1 for e in s.ev if e[0] == "add")
            loc = M.loc(s, a[1])
            cp = ip.load(s, loc) if loc else None
            if self.bfield is None or cp is None or cp.op != "adt" or cp.a[0] not in self.cpw or n >= self.adds or s.ctx:
                return None
            s2 = s.copy()
            b = mk("sym", "added%d" % n, self.bty)
            s2.ev += (("add", b),)
            i = 2 + self.bfield
            ip.store(s2, loc, mk("adt", *(cp.a[:i] + (seq((("sp", cp.a[i]), ("e", b))),) + cp.a[i + 1:])))
            return C.a_nt(ip, s, f, a, dti, site) + C.a_nt(ip, s2, f, a, dti, site)
        return None

    # ------------------------------------------------------------ families
    def value(self, nattr, small=None, nb=None):
        """a class: symbolic parts, `nattr` attributes; `small` fixes the number of members of a kind"""
        ip = self.ip
        fs = []
        for n, t in self.fields:
            if n == "attributes":
                xs = [mk("sym", "attr%d" % i, self.aty) for i in range(nattr)]
                if nb is not None:
                    xs.insert(0, ip.adt(self.aty, self.bi, mk("seq", *[("e", mk("sym", "b%d" % i, self.bty)) for i in range(nb)])))
                fs.append(mk("seq", *[("e", x) for x in xs]))
            elif small is not None and n in ("fields", "methods", "interfaces"):
                fs.append(mk("seq", *[("e", mk("sym", "%s%d" % (n, i), ip.ty.elem(t))) for i in range(small.get(n, 0))]))
            else:
                fs.append(mk("sym", n, t))
        return ip.adt(self.ti, 0, *fs)

    def run(self):
        self.family("any members, no attributes", self.value(0), 0)
        for n in (1, 2, 3):
            self.family("any members, %d attributes" % n, self.value(n), 0)
        for nb in (None, 0, 1, 2):
            for small in ({"fields": 1}, {"methods": 2}, {"fields": 1, "methods": 1}):
                self.family("%s, %s bootstrap methods" % (" and ".join("%d %s" % (v, k) for k, v in small.items()), nb),
                            self.value(0, small, nb), 2)
            self.family("one attribute, %s bootstrap methods" % nb, self.value(1, {}, nb), 2)
        self.family("two attributes", self.value(2, {}, None), 2)
        self.orders()
        self.magic()

    def family(self, what, val, adds):
        ip, C = self.ip, self.C
        self.adds = adds
        ip.steps = 0
        ip.loops.clear()
        try:
            outs = C.run_writer(ip.new_state(), self.wi, val)
        except (Budget, RecursionError) as e:
            ip.stack.clear()
            self.R.undecided(what, "%s %s" % (type(e).__name__, e))
            return
        self.R.count("families")
        for rec in ip.loops.values():
            for b in rec["backs"]:
                self.late(what, b)
        n = 0
        for o in outs:
            self.R.count("writer paths")
            if o.k != "ret":
                self.verdict(what + ":panic", o.s, False, lambda: "writing a class panics: %s" % o.v)
                continue
            if o.v.op != "adt":
                self.R.undecided(what, "result not determined")
                continue
            if o.v.a[1] != 0:
                self.refused(what, o, val)
                continue
            n += 1
            self.late(what, o.s)
            if self.layout(what, o, val):
                self.read(what, o, val)
        if not n:
            self.R.undecided(what, "no written class")

    def verdict(self, key, s, ok, text, *terms):
        if ok:
            self.R.good(key)
        elif tainted(s, *terms):
            self.R.undecided(key, text()[:600])
        else:
            self.R.bad(key, text()[:2000] + "\n  path: " + "; ".join("%s:%s" % (show(a[0])[:120], a[1:]) for a in s.f.order)[:1500])

    def late(self, what, s):
        """nothing is added to the pool after it was written out"""
        ev = [e[0] for e in s.ev if e[0] in ("ins", "pool")]
        bad = "pool" in ev and "ins" in ev[ev.index("pool"):]
        self.verdict(what + ":pool order", s, not bad, lambda: "constants are inserted after the pool was written: %s" % (
            [e for e in s.ev if e[0] in ("ins", "pool")],))

    def refused(self, what, o, val):
        """a class is refused only because some count or length does not fit"""
        ok = False
        for a in o.s.f.order:
            if a[0].op == "ovf" and a[1:] == (1, 1):
                ok = True
        for a in o.s.f.order:
            if len(a) == 3 and a[1] != "ne" and isinstance(a[1], int) and a[1] >= 65536:
                ok = True
        self.verdict(what + ":refused", o.s, ok, lambda: "a class is refused: %s" % show(o.v)[:300], o.v)

    def parts(self, o, val):
        """(bootstrap methods, other attributes) as they must be written on this path"""
        names = [n for n, _ in self.fields]
        attrs = val.a[2 + names.index("attributes")]
        bs, others, has = [], [], False
        for p in attrs.a:
            x = p[1]
            if x.op == "adt":
                d = x.a[1]
            else:
                d = o.s.f.value(mk("discr", x, len(self.ip.ty[self.aty]["v"])))
            if d == self.bi:
                has = True
                bs.append(("sp", x.a[2] if x.op == "adt" else mk("fld", x, self.bi, 0, self.blist)))
            else:
                others.append(x)
        for e in o.s.ev:
            if e[0] == "add":
                bs.append(("e", e[1]))
        L = seq(bs)
        if len(bs) == 1 and bs[0][0] == "sp":
            L = bs[0][1]
        return L, others, has or bool(o.s.ev and any(e[0] == "add" for e in o.s.ev))

    def layout(self, what, o, val):
        me = self
        C, ip = self.C, self.ip
        L, others, has = self.parts(o, val)

        def classfile(m, c):
            m.u4(0xCAFEBABE, "magic")
            m.nested(c.version)
            r = m.rest()
            if not r.a or r.a[0][0] != "nt" or not r.a[0][1][1].endswith("::VecCp"):
                raise Mismatch("the constant pool must follow the version, found " + (show_piece(r.a[0])[:200] if r.a else "nothing"))
            m.ip.store(m.s, m.loc, mk("src", *r.a[1:]))
            m.nested(c.access)
            m.u2(m.cls(c.name), "this_class")
            m.u2(m.opt(c.super_name, m.cls), "super_class")
            me.table(m, c.interfaces, lambda m, x: m.u2(m.cls(x), "interface"))
            me.table(m, c.fields, lambda m, x: m.nested(x))
            me.table(m, c.methods, lambda m, x: m.nested(x))
            m.u2(len(others) + (1 if has else 0), "attributes_count")
            for x in others:
                m.nested(V(m, x, me.aty))
            if has:
                m.u2(m.utf8(m.const(b"BootstrapMethods")), "attribute name")
                r = m.rest()
                got = m.raw(4)
                m.same(got, seq_len(m.rest()), "length of the BootstrapMethods attribute")
                me.table(m, V(m, L, me.blist), lambda m, x: m.nested(x))

        ok, mism, unk_ = match_path(C, o.s, o.pieces, val, self.ti, classfile, taint=(o.v,))
        for t in mism:
            self.verdict(what + ":layout:" + t.split(":")[0][:60], o.s, False, lambda: t)
        for t in unk_:
            self.R.undecided(what + ":layout", t)
        if ok and not mism:
            self.R.good(what + ":layout", ok)
        return not mism

    def table(self, m, xs, elem):
        """an explicit or an arbitrary list"""
        t = xs.t
        if t.op == "seq" and all(p[0] == "e" for p in t.a):
            m.u2(len(t.a), "count of the table")
            for p in t.a:
                elem(m, V(m, p[1], xs.elem_ty()))
        else:
            m.table(2, xs, elem)

    def expected(self, o, val):
        L, others, has = self.parts(o, val)
        names = [n for n, _ in self.fields]
        i = 2 + names.index("attributes")
        xs = [("e", x) for x in others]
        if has:
            xs.append(("e", self.ip.adt(self.aty, self.bi, L)))
        return mk("adt", *(val.a[:i] + (mk("seq", *xs),) + val.a[i + 1:])), (L if has else EMPTY)

    def read(self, what, o, val):
        want, L = self.expected(o, val)
        self.read_back(what, o.s, o.pieces, want, L)

    def read_back(self, what, s, pieces, want, L):
        ip, C = self.ip, self.C
        s = s.copy()
        s.ev = ()
        ip.steps = 0
        try:
            outs = C.run_reader(s, self.ri, pieces)
        except (Budget, RecursionError) as e:
            ip.stack.clear()
            self.R.undecided(what + ":read", "%s %s" % (type(e).__name__, e))
            return
        for r in outs:
            self.R.count("reader paths")
            if r.k != "ret":
                self.verdict(what + ":read:panic", r.s, False, lambda: "reading the class panics: %s" % r.v)
                continue
            if r.v.op != "adt":
                self.R.undecided(what + ":read", "result not determined")
                continue
            if self.raw_named(r.s):
                continue
            if "bsmerr" in r.s.tags:
                self.verdict(what + ":read:unresolved", r.s, r.v.a[1] != 0, lambda: "unresolvable bootstrap methods are not reported")
                continue
            if r.v.a[1] != 0:
                self.verdict(what + ":read:refused", r.s, False, lambda: "the reader refuses a written class: " + show(r.v)[:300], r.v)
                continue
            left = r.src
            if left is not None and left.op == "src":
                while left.a and left.a[0][0] == "lp" and r.s.f.range(sub(left.a[0][4], left.a[0][2]))[0] >= 0:
                    left = mk("src", *left.a[1:])
                self.verdict(what + ":read:rest", r.s, r.s.f.value(seq_len(left)) == 0, lambda: "the reader leaves " + show(left)[:300], left)
            got = ip.deep(r.s, r.v.a[2])
            if got.op != "adt":
                self.R.undecided(what + ":read", "class not determined: " + show(got)[:200])
                continue
            for (n, t), x, y in zip(self.fields, got.a[2:], want.a[2:]):
                ok = x is y or r.s.f.decide(ip.mk_eq(r.s.f, x, y)) == 1
                self.verdict(what + ":read:" + n, r.s, ok, lambda: "%s: written %s, read %s" % (n, show(y)[:400], show(x)[:400]), x)
            calls = [e[1] for e in r.s.ev if e[0] == "bsms"]
            if len(calls) != 1:
                self.verdict(what + ":read:resolution", r.s, False, lambda: "bootstrap methods are handed to the pool %d times" % len(calls))
            else:
                x = calls[0]
                ok = x is L or r.s.f.decide(ip.mk_eq(r.s.f, x, L)) == 1 or (r.s.f.value(seq_len(x)) == 0 and r.s.f.value(seq_len(L)) == 0)
                self.verdict(what + ":read:resolution", r.s, ok,
                             lambda: "the class has bootstrap methods %s, the pool is given %s" % (show(L)[:300], show(x)[:300]), x)

    def raw_named(self, s):
        for a in s.f.order:
            x = a[0]
            if x.op == "len" and x.a[0].op == "fld" and s.f.value(x) is not None:
                own = x.a[0].a[0]
                if own.op == "fld" and isinstance(own.a[-1], int):
                    ty = self.ip.ty[own.a[-1]]
                    if ty["k"] == "adt" and ty["path"].endswith("::RawAttribute"):
                        return True
        return False

    def orders(self):
        """the bootstrap methods attribute anywhere among the attributes"""
        ip, C = self.ip, self.C
        self.adds = 0
        val = self.value(0, {})
        ip.steps = 0
        for o in C.run_writer(ip.new_state(), self.wi, val):
            if o.k != "ret" or o.v.op != "adt" or o.v.a[1] != 0:
                continue
            head = o.pieces
            k = head[-1]
            if k[0] != "k" or not k[1].endswith(b"\0\0"):
                self.R.undecided("orders", "unexpected layout")
                continue
            akey = ("ConstantPoolReadWrite", [kk for kk in C.index if kk[1].endswith("::ClassAttribute")][0][1])
            L = mk("sym", "bsms", self.blist)
            B = ip.adt(self.aty, self.bi, L)
            for n in (1, 2, 3):
                for at in range(n):
                    s = o.s.copy()
                    xs = [mk("sym", "attr%d" % i, self.aty) for i in range(n)]
                    for i, x in enumerate(xs):
                        s.f.exclude(mk("discr", x, len(ip.ty[self.aty]["v"])), self.bi)
                    xs[at] = B
                    ps = head[:-1] + (("k", k[1][:-1] + bytes([n])),) + tuple(("nt", akey, x) for x in xs)
                    i = 2 + [m for m, _ in self.fields].index("attributes")
                    want = mk("adt", *(val.a[:i] + (mk("seq", *[("e", x) for x in xs]),) + val.a[i + 1:]))
                    self.read_back("bootstrap methods at %d of %d" % (at + 1, n), s, ps, want, L)

    def magic(self):
        """anything but the magic number is refused"""
        ip, C = self.ip, self.C
        x = mk("sym", "magic", C.tyid("u32"))
        s = ip.new_state()
        src = s.alloc(EMPTY)
        got = 0
        for o in ip.run_fn(s, self.ri, [mk("ref", src, ())]):
            if o.k != "ret" or o.v.op != "adt" or o.v.a[1] != 0:
                continue
            got += 1
            # the first four bytes read
            ok = False
            for a in o.s.f.order[:3]:
                if a[0].op == "rd" and a[1:] == (0xCAFEBABE, 0xCAFEBABE):
                    ok = True
            self.verdict("magic", o.s, ok, lambda: "a class file is accepted although its first four bytes are not the magic number")
        if not got:
            self.R.undecided("magic", "no accepted class file")


def run(R, mir):
    core(R, mir)
    import c06

    R.lemma("constant pool", c06, mir)


def core(R, mir):
    K = ClassFile(R, mir)
    K.run()
    R.floor("families", 15)
    R.floor("reader paths", 50)
