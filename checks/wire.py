"""JVMS layouts as reference decoders over the byte grammar a writer emits.

A layout is a Python function that consumes the grammar left to right (u1/u2/u4/...,
tables, nested structures) and states which value of the structure must stand there.
Nothing is executed: the bytes are terms over the fields of an arbitrary value."""
from terms import *
from state import *
from codec import has_unk, has_bad, tainted
from models import to_lp


class Mismatch(Exception):
    pass


class Unknown(Exception):
    pass


class V:
    """a value term with its type: fields by name, variants through the path facts"""

    __slots__ = ("m", "t", "ti")

    def __init__(self, m, t, ti):
        self.m, self.t, self.ti = m, t, ti

    def adt(self):
        return self.m.C.ty[self.ti]

    def variant(self):
        ty = self.adt()
        if len(ty["v"]) == 1:
            return ty["v"][0]["n"]
        if self.t.op == "adt":
            return ty["v"][self.t.a[1]]["n"]
        d = self.m.f.value(mk("discr", self.t, len(ty["v"])))
        if d is None:
            # decide by splitting: every variant the path allows
            cand = [i for i in range(len(ty["v"])) if not self.m.f.excluded(mk("discr", self.t, len(ty["v"])), i)]
            d = cand[self.m.choose(len(cand))]
            self.m.assume(mk("discr", self.t, len(ty["v"])), d)
        return ty["v"][d]["n"]

    def vi(self, name):
        for i, v in enumerate(self.adt()["v"]):
            if v["n"] == name:
                return i
        raise Unknown("no variant %s" % name)

    def field(self, name, variant=None):
        ty = self.adt()
        if ty["k"] == "tuple":
            i = int(name)
            if self.t.op == "tup":
                return V(self.m, self.t.a[i], ty["ts"][i])
            return V(self.m, mk("fld", self.t, None, i, ty["ts"][i]), ty["ts"][i])
        vi = 0
        if len(ty["v"]) > 1:
            vi = self.vi(variant or self.variant())
        for i, (n, fti) in enumerate(ty["v"][vi]["f"]):
            if n == str(name):
                if self.t.op == "adt":
                    return V(self.m, self.t.a[2 + i], fti)
                return V(self.m, mk("fld", self.t, vi if len(ty["v"]) > 1 else None, i, fti), fti)
        raise Unknown("no field %s in %s" % (name, ty["path"]))

    def __getattr__(self, name):
        return self.field(name)

    def __getitem__(self, i):
        return self.field(i)

    def some(self):
        """the content of an Option, or None"""
        return None if self.variant() == "None" else self.field(0, "Some")

    def elem_ty(self):
        return self.m.C.ty.elem(self.ti)


class Matcher:
    def __init__(self, C, state, pieces, script):
        self.C, self.ip, self.M = C, C.ip, C.ip.models
        self.s = state
        self.cell = state.alloc(mk("src", *[to_lp(p) for p in pieces]))
        self.loc = (self.cell, ())
        self.script, self.pos, self.widths = script, 0, []
        self.trace = []
        self.vt = C.tyid("u8")

    @property
    def f(self):
        return self.s.f

    # -- nondeterminism by re-execution
    def choose(self, n):
        if n == 0:
            raise Infeasible
        if n == 1:
            return 0
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
        self.widths.append(n)
        self.pos += 1
        return c

    def assume(self, t, v):
        self.s.f.bound(t, v, v)

    def pick(self, outs):
        return outs[self.choose(len(outs))]

    # -- consuming
    def rest(self):
        v = self.M.src_norm(self.s, self.ip.load(self.s, self.loc))
        return v

    def raw(self, n):
        """n bytes as a big-endian unsigned term"""
        outs = self.M.read_bytes(self.s, self.loc, self.vt, I(n), None)
        outs = [o for o in outs]
        s, b = self.pick(outs)
        self.s = s
        if b is None:
            raise Mismatch("the writer emits fewer bytes than the format requires")
        return self.be(b, n)

    def be(self, b, n):
        if b.op == "seq" and len(b.a) == 1 and b.a[0][0] == "be" and b.a[0][1] == n:
            return b.a[0][2]
        k = bytes_const(b)
        if k is not None:
            return I(int.from_bytes(k, "big"))
        if has_bad(b):
            raise Mismatch("layout: " + show(b)[:300])
        if has_unk(b):
            raise Unknown(show(b)[:300])
        # wider or split field
        raise Mismatch("expected one %d-byte field, found %s" % (n, show(b)[:300]))

    def same(self, got, want, what):
        if isinstance(want, V):
            want = want.t
        if isinstance(want, int):
            want = I(want)
        t = self.ip.mk_eq(self.f, got, want)
        r = self.f.decide(t)
        if r == 1:
            return
        if has_unk(got):
            raise Unknown(show(got)[:300])
        raise Mismatch("%s: the format requires %s, the writer emits %s" % (what, show(want)[:400], show(got)[:400]))

    def num(self, n, want, what):
        got = self.raw(n)
        bits = 8 * n
        if isinstance(want, V):
            want = want.t
        if isinstance(want, int):
            want = I(want)
        if got is not want:
            # compare modulo 2^bits (signed fields are emitted as their two's complement)
            g, w = self.f.wrap(bits, False, got), self.f.wrap(bits, False, want)
            if g is w:
                return
            self.same(got if g is got else g, want if w is want else w, what)

    def u1(self, want, what="u1"):
        self.num(1, want, what)

    def u2(self, want, what="u2"):
        self.num(2, want, what)

    def u4(self, want, what="u4"):
        self.num(4, want, what)

    def u8(self, want, what="u8"):
        self.num(8, want, what)

    def end(self):
        v = self.rest()
        if v.op == "src" and self.f.value(seq_len(v)) != 0:
            raise Mismatch("bytes beyond the format: " + show(v)[:300])

    def bytes(self, want, what="bytes"):
        """the whole rest must be this byte sequence"""
        v = self.rest()
        got = seq([q for q in v.a])
        want = want.t if isinstance(want, V) else want
        self.same(got, want, what)
        self.ip.store(self.s, self.loc, mk("src"))

    def take(self, want, n, what):
        """a run of bytes of symbolic length"""
        v = self.rest()
        want = want.t if isinstance(want, V) else want
        if not v.a:
            if self.f.value(n) == 0:
                return
            raise Mismatch("missing " + what)
        self.same(seq([v.a[0]]), want, what)
        self.ip.store(self.s, self.loc, mk("src", *v.a[1:]))

    def nested(self, v, tr=None):
        """a nested structure: a nonterminal of the writer, or its layout inlined"""
        key = self.key_of(v.ti, tr)
        r = self.rest()
        if r.a and r.a[0][0] == "nt":
            k2, w = r.a[0][1], r.a[0][2]
            if k2 == key:
                self.same(w, v, "nested " + key[1])
                self.ip.store(self.s, self.loc, mk("src", *r.a[1:]))
                return
        fn = LAYOUT.get(key)
        if fn is None:
            raise Unknown("no layout for %s" % (key,))
        fn(self, v)

    def key_of(self, ti, tr=None):
        from codec import tkey

        n = tkey(self.C.ty, ti)
        for t in (tr,) if tr else ("ReadWrite", "ConstantPoolReadWrite"):
            if (t, n) in self.C.index:
                return (t, n)
        return (tr or "ConstantPoolReadWrite", n)

    def table(self, width, xs, elem):
        """count followed by that many elements"""
        n = seq_len(xs.t)
        self.num(width, n, "count of the table")
        self.items(xs, elem, n)

    def items(self, xs, elem, n=None):
        n = seq_len(xs.t) if n is None else n
        r = self.rest()
        if self.f.value(n) == 0:
            return
        if not r.a:
            raise Mismatch("table elements are not emitted")
        p = r.a[0]
        if p[0] != "lp":
            raise Mismatch("expected the elements of a table, found %s" % show_piece(p)[:200])
        _, uid, cnt, alts, k = p
        if self.f.value(k) != 0:
            raise Unknown("partially consumed loop")
        if cnt is not n and self.f.value(sub(cnt, n)) != 0:
            raise Mismatch("table announces %s elements but emits %s" % (show(n), show(cnt)))
        it = mk("it", uid)
        ai = self.choose(len(alts) + 1)
        if ai == len(alts):
            # after the loop
            self.ip.store(self.s, self.loc, mk("src", *r.a[1:]))
            return
        gs, ps = alts[ai]
        self.ip.apply_guards(self.s.f, gs)
        self.ip.store(self.s, self.loc, mk("src", *[to_lp(q) for q in ps]))
        ety = xs.elem_ty() if self.C.ty[xs.ti].get("path") not in ("std::collections::HashMap",) else None
        if ety is not None:
            elem(self, V(self, mk("elem", xs.t, it, ety), ety))
        else:
            kt, vt = self.C.ty[xs.ti]["args"][:2]
            k, v = self.ip.map_entry(xs.t, it).a
            elem(self, (V(self, k, kt), V(self, v, vt)))
        self.end()
        raise Done

    # -- expected values
    def entry(self, name, *args):
        ti = self.C.entry_ty
        for i, v in enumerate(self.C.ty[ti]["v"]):
            if v["n"] == name:
                args = [a.t if isinstance(a, V) else a for a in args]
                return self.ip.mk_app("idx", self.ip.adt(ti, i, *args), self.C.tyid("u16"))
        raise Unknown("no constant pool entry kind " + name)

    def utf8(self, x):
        return self.entry("WTF8", x)

    def cls(self, x):
        return self.entry("Class", self.utf8(x))

    def module(self, x):
        return self.entry("Module", self.utf8(x))

    def package(self, x):
        return self.entry("Package", self.utf8(x))

    def string(self, x):
        return self.entry("String", self.utf8(x))

    def text(self, x):
        return self.ip.mk_app("display", x.t if isinstance(x, V) else x, -1)

    def desc(self, x):
        return self.utf8(self.text(x))

    def nat(self, name, desc):
        return self.entry("NameAndType", self.utf8(name), self.desc(desc))

    def opt(self, x, fn):
        y = x.some()
        return I(0) if y is None else fn(y)

    def const(self, data):
        return seq((("k", data),))

    def mref(self, r):
        d = r.descriptor
        if d.variant() == "Method":
            b = self.f.value(r.itfs.t)
            if b is None:
                b = self.choose(2)
                self.assume(r.itfs.t, b)
            kind = "InterfaceMethod" if b else "Method"
        else:
            kind = "Field"
        return self.entry(kind, self.cls(r.owner), self.nat(r.name, d))

    def handle(self, h):
        return self.entry("MethodHandle", self.handle_kind(h.kind), self.mref(h.member))

    KINDS = dict(GetField=1, GetStatic=2, PutField=3, PutStatic=4, InvokeVirtual=5, InvokeStatic=6, InvokeSpecial=7,
                 NewInvokeSpecial=8, InvokeInterface=9)

    def handle_kind(self, k):
        t = self.ip.mk_app  # noqa
        n = k.variant()
        if n not in self.KINDS:
            raise Unknown("method handle kind " + n)
        return I(self.KINDS[n])

    def dynamic(self, d, invoke):
        b = self.ip.mk_app("cell_val", d.bsm.t, -1)
        ix = None
        # the index the writer obtained for this bootstrap method
        return d, invoke, b, ix


class Done(Exception):
    """this alternative is finished (an element of a table was matched in full)"""


LAYOUT = {}


def layout(*names):
    def d(fn):
        for n in names:
            tr, _, path = n.partition(" ")
            LAYOUT[({"R": "ReadWrite", "C": "ConstantPoolReadWrite"}[tr], path)] = fn
        return fn

    return d


def match_path(C, state, pieces, val, ti, fn, limit=60000, taint=()):
    """all ways through the layout for one writer path: (#matched, [mismatch], [unknown])"""
    ok, mism, unk_ = 0, [], []
    script = []
    n = 0
    while True:
        n += 1
        if n > limit:
            unk_.append("too many alternatives")
            break
        m = Matcher(C, state.copy(), pieces, script)
        try:
            fn(m, V(m, val, ti))
            m.end()
            ok += 1
        except Done:
            ok += 1
        except Infeasible:
            pass
        except Mismatch as e:
            if tainted(m.s, mk("src", *pieces), *taint):
                unk_.append("with unmodelled values: " + str(e))
            else:
                mism.append(str(e))
        except Unknown as e:
            unk_.append(str(e))
        # next script
        w = m.widths
        sc = (script + [0] * len(w))[: len(w)]
        while sc and sc[-1] + 1 >= w[len(sc) - 1]:
            sc.pop()
        if not sc:
            break
        sc[-1] += 1
        script = sc
    return ok, mism, unk_
