"""Grammar of descriptors (JVMS 4.3) and signatures (JVMS 4.7.9.1): reference parser and printer over texts of
which only what a path has looked at is known."""
from codec import Codecs, has_unk
from interp import Budget
from state import Infeasible
from terms import *
from text import Texts, const_bytes

PRIM = {"B": "Byte", "C": "Char", "D": "Double", "F": "Float", "I": "Int", "J": "Long", "S": "Short", "Z": "Boolean"}
P = "".join(PRIM)
FIRST = {
    "TypeSignature": P + "TL[", "RefTypeSignature": "TL[", "ClassTypeSignature": "L", "Throws": "^",
    "TypeArgument": "*+-TL[", "TypeParameter": None, "Type": P + "L[(",
}
WIDER = {  # a text of the first is also one of the second
    ("RefTypeSignature", "TypeSignature"), ("ClassTypeSignature", "RefTypeSignature"), ("ClassTypeSignature", "TypeSignature"),
    ("RefTypeSignature", "TypeArgument"), ("ClassTypeSignature", "TypeArgument"),
}
SPECIAL = ".;[/<>:"
NEW = 3  # characters the reference looks at beyond what the code looked at


class Open(Exception):
    """the reference needs what the path keeps inside a nested construct"""


class V:
    __slots__ = ("f", "u", "closed", "new", "fails")

    def __init__(self, f, u, closed, fails, new=0):
        self.f, self.u, self.closed, self.fails, self.new = f, u, closed, fails, new

    def copy(self):
        return V(self.f.copy(), self.u, self.closed, self.fails, self.new)


class Ref:
    """the reference parser; results are (view, position, tree) or (view, None, None) for a malformed text"""

    def __init__(self, S):
        self.S = S
        self.u32 = S.C.tyid("u32")

    def peek(self, v, k):
        if k < len(v.u):
            u = v.u[k]
            if u[0] != "c":
                raise Open
            return [(v, u[1])]
        if v.closed:
            return [(v, None)]
        if k > len(v.u):
            raise Open
        e = v.copy()
        e.closed = True
        r = [(e, None)]
        if v.new < NEW:
            n = v.copy()
            c = mk("sym", "n%d" % k, self.u32)
            n.f.bound(c, 0, 0x10FFFF)
            n.u, n.new = n.u + (("c", c),), n.new + 1
            r.append((n, c))
        return r

    def case(self, v, k, chars):
        """[(view, one of chars | "" other | None end)]"""
        res = []
        for v2, c in self.peek(v, k):
            if c is None:
                res.append((v2, None))
                continue
            x = v2.f.value(c)
            if x is not None:
                res.append((v2, chr(x) if chr(x) in chars else ""))
                continue
            o = v2.copy()
            try:
                for ch in chars:
                    if v2.f.excluded(c, ord(ch)):
                        continue
                    y = v2.copy()
                    try:
                        y.f.bound(c, ord(ch), ord(ch))
                        res.append((y, ch))
                    except Infeasible:
                        pass
                    o.f.exclude(c, ord(ch))
                res.append((o, ""))
            except Infeasible:
                pass
        return res

    def expect(self, v, k, ch):
        return [(x, k + 1 if c == ch else None, None) for x, c in self.case(v, k, ch)]

    def ident(self, v, k, stops=SPECIAL):
        """[(view, position, characters)]"""
        work, res = [(v, k, ())], []
        while work:
            v, k, cs = work.pop()
            for x, c in self.case(v, k, stops):
                if c is None or c:
                    res.append((x, k, cs))
                else:
                    work.append((x, k + 1, cs + (x.u[k][1],)))
        return res

    def nt(self, v, k, name):
        for n, p in v.fails:
            if p == k and (n == name or (name, n) in WIDER):
                return [(v, None, None)]
        if any(p >= k and (self.S.T.chain or (n, name) in WIDER) for n, p in v.fails):
            return self.rule(name)(v, k)
        if k + 1 < len(v.u) and v.u[k + 1][0] == "rest":
            X = v.u[k + 1][1]
            if self.S.tname(X.a[1]) == name:
                return [(v, k + 2, ("X", X))]
            return self.rule(name)(v, k)
        if v.closed or len(v.u) - k > 1 or v.new >= NEW or name not in FIRST or FIRST.get(name) is None and name != "TypeParameter":
            return self.rule(name)(v, k)
        if k > len(v.u):
            raise Open
        res = []
        w = v.copy()
        if k == len(v.u):
            c = mk("sym", "n%d" % k, self.u32)
            w.u += (("c", c),)
            w.f.bound(c, 0, 0x10FFFF)
        c = w.u[k][1]
        X = mk("sym", "N%d" % k, self.S.tid(name))
        w.new += 1
        first = FIRST[name]
        if first is None:
            first = "T"
        for ch in first:
            if not w.f.excluded(c, ord(ch)):
                y = w.copy()
                try:
                    y.f.bound(c, ord(ch), ord(ch))
                except Infeasible:
                    continue
                y.u += (("rest", X),)
                res.append((y, k + 2, ("X", X)))
                break
        else:
            return self.rule(name)(v, k)
        return res

    def rule(self, name):
        return getattr(self, "r_" + name)

    def then(self, rs, fn):
        """continue successful parses"""
        res = []
        for v, k, t in rs:
            res += [(v, None, None)] if k is None else fn(v, k, t)
        return res

    # ------------------------------------------------------------ signatures
    def r_TypeSignature(self, v, k):
        res = []
        for x, c in self.case(v, k, P):
            if c:
                res.append((x, k + 1, ("TypeSignature", PRIM[c], ())))
            elif c is None:
                res.append((x, None, None))
            else:
                res += self.then(self.nt(x, k, "RefTypeSignature"), lambda y, p, t: [(y, p, ("TypeSignature", "Ref", (t,)))])
        return res

    def var(self, v, k, make):
        def go(x, p, cs):
            if not cs:
                return [(x, None, None)]
            return self.then(self.expect(x, p, ";"), lambda y, q, _: [(y, q, make(("str", cs)))])
        return [r for x, p, cs in self.ident(v, k) for r in go(x, p, cs)]

    def dims(self, v, k):
        work, res = [(v, k, 0)], []
        while work:
            v, k, n = work.pop()
            for x, c in self.case(v, k, "["):
                if c == "[":
                    work.append((x, k + 1, n + 1))
                else:
                    res.append((x, k, n))
        return res

    def r_RefTypeSignature(self, v, k):
        T = "RefTypeSignature"
        res = []
        for x, c in self.case(v, k, "TL["):
            if c == "T":
                res += self.var(x, k + 1, lambda n: (T, "TypeVariable", (n,)))
            elif c == "L":
                res += self.then(self.nt(x, k, "ClassTypeSignature"), lambda y, p, t: [(y, p, (T, "ClassType", (t,)))])
            elif c == "[":
                for y, p, n in self.dims(x, k):
                    if n > 255:
                        res.append((y, None, None))
                    else:
                        res += self.then(self.nt(y, p, "TypeSignature"), lambda z, q, t, n=n: [(z, q, (T, "ArrayRef", (n, t)))])
            else:
                res.append((x, None, None))
        return res

    def r_ClassTypeSignature(self, v, k):
        def head(x, p, pk):
            res = []
            for y, q, cs in self.ident(x, p):
                if not cs:
                    res.append((y, None, None))
                    continue
                for z, c in self.case(y, q, "/"):
                    if c == "/":
                        res += head(z, q + 1, pk + (("str", cs),))
                    else:
                        res += self.then(self.args(z, q, cs), lambda w, r, t: tail(w, r, pk, t, ()))
            return res

        def tail(x, p, pk, name, sf):
            res = []
            for y, c in self.case(x, p, ".;"):
                if c == ";":
                    res.append((y, p + 1, ("ClassTypeSignature", None, {"package": ("list", pk), "name": name, "suffix": ("list", sf)})))
                elif c == ".":
                    res += self.then(self.r_SimpleClassTypeSignature(y, p + 1), lambda w, r, t: tail(w, r, pk, name, sf + (t,)))
                else:
                    res.append((y, None, None))
            return res

        return self.then(self.expect(v, k, "L"), lambda x, p, _: head(x, p, ()))

    def many(self, v, k, name, end):
        """one or more, up to and including end"""
        def go(x, p, ts):
            res = []
            for y, c in (self.case(x, p, end) if ts else [(x, "")]):
                if c:
                    res.append((y, p + 1, ("list", ts)))
                elif c is None:
                    res.append((y, None, None))
                else:
                    res += self.then(self.nt(y, p, name), lambda z, q, t: go(z, q, ts + (t,)))
            return res
        return go(v, k, ())

    def args(self, v, k, cs):
        mkt = lambda l: ("SimpleClassTypeSignature", None, {"name": ("str", cs), "type_arguments": l})
        res = []
        for x, c in self.case(v, k, "<"):
            if c == "<":
                res += self.then(self.many(x, k + 1, "TypeArgument", ">"), lambda y, p, l: [(y, p, mkt(l))])
            else:
                res.append((x, k, mkt(("list", ()))))
        return res

    def r_SimpleClassTypeSignature(self, v, k):
        res = []
        for x, p, cs in self.ident(v, k):
            res += self.args(x, p, cs) if cs else [(x, None, None)]
        return res

    def r_TypeArgument(self, v, k):
        T = "TypeArgument"
        res = []
        for x, c in self.case(v, k, "*+-"):
            if c == "*":
                res.append((x, k + 1, (T, "Any", ())))
            elif c:
                res += self.then(self.nt(x, k + 1, "RefTypeSignature"), lambda y, p, t: [(y, p, (T, "Extends" if c == "+" else "Super", (t,)))])
            elif c is None:
                res.append((x, None, None))
            else:
                res += self.then(self.nt(x, k, "RefTypeSignature"), lambda y, p, t: [(y, p, (T, "Exact", (t,)))])
        return res

    def r_TypeParameter(self, v, k):
        T = "TypeParameter"

        def ifs(x, p, n, cb, ib):
            res = []
            for y, c in self.case(x, p, ":"):
                if c:
                    res += self.then(self.nt(y, p + 1, "RefTypeSignature"), lambda z, q, t: ifs(z, q, n, cb, ib + (t,)))
                else:
                    res.append((y, p, (T, None, {"name": ("str", n), "class_bound": cb, "interface_bounds": ("list", ib)})))
            return res

        def bound(x, p, n):
            res = []
            for y, c in self.case(x, p, "TL["):
                if c:
                    res += self.then(self.nt(y, p, "RefTypeSignature"), lambda z, q, t: ifs(z, q, n, ("some", t), ()))
                else:
                    res += ifs(y, p, n, ("none",), ())
            return res

        res = []
        for x, p, cs in self.ident(v, k):
            if not cs:
                res.append((x, None, None))
            else:
                res += self.then(self.expect(x, p, ":"), lambda y, q, _: bound(y, q, cs))
        return res

    def params(self, v, k):
        res = []
        for x, c in self.case(v, k, "<"):
            res += self.many(x, k + 1, "TypeParameter", ">") if c else [(x, k, ("list", ()))]
        return res

    def star(self, v, k, first, name):
        def go(x, p, ts):
            res = []
            for y, c in self.case(x, p, first):
                if c:
                    res += self.then(self.nt(y, p, name), lambda z, q, t: go(z, q, ts + (t,)))
                else:
                    res.append((y, p, ("list", ts)))
            return res
        return go(v, k, ())

    def r_ClassSignature(self, v, k):
        def sup(x, p, tp):
            return self.then(self.nt(x, p, "ClassTypeSignature"), lambda y, q, sc: self.then(
                self.star(y, q, "L", "ClassTypeSignature"),
                lambda z, r, l: [(z, r, ("ClassSignature", None, {"type_parameters": tp, "super_class": sc, "interfaces": l}))]))
        return self.then(self.params(v, k), sup)

    def r_MethodSignature(self, v, k):
        def throws(x, p, d):
            return self.then(self.star(x, p, "^", "Throws"), lambda y, q, l: [(y, q, ("MethodSignature", None, dict(d, throws=l)))])

        def ret(x, p, d):
            res = []
            for y, c in self.case(x, p, "V"):
                if c:
                    res += throws(y, p + 1, dict(d, return_type=("none",)))
                else:
                    res += self.then(self.nt(y, p, "TypeSignature"), lambda z, q, t: throws(z, q, dict(d, return_type=("some", t))))
            return res

        def body(x, p, tp):
            return self.then(self.expect(x, p, "("), lambda y, q, _: self.then(
                self.star(y, q, P + "TL[", "TypeSignature"),
                lambda z, r, l: self.then(self.expect(z, r, ")"), lambda w, t, _: ret(w, t, {"type_parameters": tp, "parameters": l}))))
        return self.then(self.params(v, k), body)

    def r_Throws(self, v, k):
        def go(x, p, _):
            res = []
            for y, c in self.case(x, p, "TL"):
                if c == "T":
                    res += self.var(y, p + 1, lambda n: ("Throws", "TypeParameter", (n,)))
                elif c == "L":
                    res += self.then(self.nt(y, p, "ClassTypeSignature"), lambda z, q, t: [(z, q, ("Throws", "Class", (t,)))])
                else:
                    res.append((y, None, None))
            return res
        return self.then(self.expect(v, k, "^"), go)

    def r_FieldSignature(self, v, k):
        return self.then(self.nt(v, k, "RefTypeSignature"), lambda x, p, t: [(x, p, ("FieldSignature", None, (t,)))])

    # ------------------------------------------------------------ descriptors
    def r_Type(self, v, k):
        res = []
        for x, c in self.case(v, k, P + "L[("):
            if not c:
                res.append((x, None, None))
            elif c == "L":
                for y, p, cs in self.ident(x, k + 1, ";"):
                    if not cs:
                        res.append((y, None, None))
                    else:
                        res += self.then(self.expect(y, p, ";"), lambda z, q, _: [(z, q, ("Type", "Ref", (("str", cs),)))])
            elif c == "[":
                for y, p, n in self.dims(x, k):
                    if n > 255:
                        res.append((y, None, None))
                        continue
                    for z, d in self.case(y, p, "("):
                        res += [(z, None, None)] if d else self.then(self.nt(z, p, "Type"), lambda w, q, t, n=n: [(w, q, ("Type", "ArrayRef", (n, t)))])
            elif c == "(":
                res += self.method(x, k + 1, ())
            else:
                res.append((x, k + 1, ("Type", PRIM[c], ())))
        return res

    def method(self, v, k, ts):
        res = []
        T = lambda r: ("Type", "Method", {"parameters": ("list", ts), "ret": r})
        for x, c in self.case(v, k, ")("):
            if c == ")":
                for y, d in self.case(x, k + 1, "V("):
                    if d == "V":
                        res.append((y, k + 2, T(("none",))))
                    elif d:
                        res.append((y, None, None))
                    else:
                        res += self.then(self.nt(y, k + 1, "Type"), lambda z, q, t: [(z, q, T(("some", t)))])
            elif c:
                res.append((x, None, None))
            else:
                res += self.then(self.nt(x, k, "Type"), lambda y, q, t: self.method(y, q, ts + (t,)))
        return res


class Sigs:
    def __init__(self, mir, limit):
        self.mir = mir
        self.C = Codecs(mir)
        self.ip, self.ty = self.C.ip, self.C.ip.ty
        self.T = Texts(self.C, limit)
        self.T.span = None
        self.ref = Ref(self)
        self.names = {}
        for i, t in enumerate(self.ty.t):
            if t["k"] == "adt" and t.get("crate") == "coffer":
                self.names.setdefault(t["path"].split("::")[-1], i)

    def tname(self, ti):
        return self.ty[ti].get("path", "").split("::")[-1]

    def tid(self, name):
        return self.names.get(name, -1)

    # ------------------------------------------------------------ values
    def strip(self, t):
        while t.op == "adt" and self.ty.path(t.a[0]) in ("std::boxed::Box", "std::borrow::Cow"):
            t = t.a[2]
        while t.op == "adt" and self.tname(t.a[0]) in ("Wtf8String", "Wtf8Str"):
            t = t.a[2]
        return t

    def chars(self, t):
        """characters of a string value, or None"""
        t = self.strip(t)
        if t is EMPTY:
            return ()
        if t.op != "seq":
            return None
        r = []
        for p in t.a:
            if p[0] == "k":
                r += [I(b) for b in p[1]]
            elif p[0] == "e" or p[0] == "be" and p[1] == 1:
                x = p[-1]
                if x.op == "app" and x.a[0] == "u8b":
                    if x.a[2] == 0:
                        r.append(x.a[1])
                    elif not r or r[-1] is not x.a[1]:
                        return None
                    continue
                r.append(x)
            else:
                return None
        return tuple(r)

    def eqc(self, f, a, b):
        return a is b or f.decide(mk("eq0", sub(a, b))) == 1

    def same(self, f, t, tree):
        """True, False, or None if the value is not determined"""
        if isinstance(tree, int):
            x = f.value(t)
            return None if x is None else x == tree
        k = tree[0]
        if k == "X":
            return True if t is tree[1] else (None if has_unk(t) else False)
        if k == "str":
            c = self.chars(t)
            if c is None:
                return None
            return len(c) == len(tree[1]) and all(self.eqc(f, a, b) for a, b in zip(c, tree[1]))
        if k == "list":
            t = self.strip(t)
            if t.op != "seq" or any(p[0] != "e" for p in t.a):
                return None
            if len(t.a) != len(tree[1]):
                return False
            return self.all(self.same(f, p[1], q) for p, q in zip(t.a, tree[1]))
        t = self.strip(t)
        if k == "none":
            return None if t.op != "adt" else t.a[1] == 0
        if k == "some":
            return None if t.op != "adt" else t.a[1] == 1 and self.same(f, t.a[2], tree[1])
        if t.op == "sym" and isinstance(t.a[0], str) and t.a[0].startswith("X"):
            return None
        if t.op != "adt":
            return None
        if self.tname(t.a[0]) != k:
            return None
        var = self.ty[t.a[0]]["v"][t.a[1]]
        if tree[1] is not None and var["n"] != tree[1]:
            return False
        fs = t.a[2:]
        if isinstance(tree[2], dict):
            d = dict(zip([n for n, _ in var["f"]], fs))
            if set(d) != set(tree[2]):
                return None
            return self.all(self.same(f, d[n], q) for n, q in tree[2].items())
        return len(fs) == len(tree[2]) and self.all(self.same(f, a, b) for a, b in zip(fs, tree[2]))

    def all(self, it):
        r = True
        for x in it:
            if x is False:
                return False
            if x is None:
                r = None
        return r

    def unparse(self, f, t):
        """tokens of a value: character terms and nested values; None if not determined"""
        t = self.strip(t)
        if t.op == "sym":
            return [("X", t)]
        if t.op != "adt":
            return None
        n = self.tname(t.a[0])
        var = self.ty[t.a[0]]["v"][t.a[1]]
        fs = t.a[2:]
        d = dict(zip([q for q, _ in var["f"]], fs))
        c = lambda s: [I(ord(x)) for x in s]

        def name(x):
            r = self.chars(x)
            return None if r is None else list(r)

        def lst(x, pre="", post=""):
            x = self.strip(x)
            if x.op != "seq" or any(p[0] != "e" for p in x.a):
                return None
            return cat(*[q for p in x.a for q in (c(pre), self.unparse(f, p[1]), c(post))])

        def brack(x):
            l = lst(x)
            return None if l is None else ([] if not l else c("<") + l + c(">"))

        def opt(x, none):
            x = self.strip(x)
            return None if x.op != "adt" else c(none) if x.a[1] == 0 else self.unparse(f, x.a[2])

        def cat(*ps):
            return None if any(p is None for p in ps) else [x for p in ps for x in p]

        inv = {b: a for a, b in PRIM.items()}
        if n in ("TypeSignature", "Type") and var["n"] in inv:
            return c(inv[var["n"]])
        if n == "FieldSignature" or (n, var["n"]) in (("TypeSignature", "Ref"), ("RefTypeSignature", "ClassType"), ("TypeArgument", "Exact")):
            return self.unparse(f, fs[0])
        if var["n"] == "ArrayRef":
            k = f.value(fs[0])
            return None if k is None else cat(c("[" * k), self.unparse(f, fs[1]))
        if (n, var["n"]) == ("Type", "Ref"):
            return cat(c("L"), name(fs[0]), c(";"))
        if (n, var["n"]) == ("RefTypeSignature", "TypeVariable"):
            return cat(c("T"), name(fs[0]), c(";"))
        if (n, var["n"]) == ("Throws", "TypeParameter"):
            return cat(c("^T"), name(fs[0]), c(";"))
        if (n, var["n"]) == ("Throws", "Class"):
            return cat(c("^"), self.unparse(f, fs[0]))
        if n == "TypeArgument":
            if var["n"] == "Any":
                return c("*")
            return cat(c("+" if var["n"] == "Extends" else "-"), self.unparse(f, fs[0]))
        if (n, var["n"]) == ("Type", "Method"):
            return cat(c("("), lst(d["parameters"]), c(")"), opt(d["ret"], "V"))
        if n == "SimpleClassTypeSignature":
            return cat(name(d["name"]), brack(d["type_arguments"]))
        if n == "ClassTypeSignature":
            pk = self.strip(d["package"])
            if pk.op != "seq" or any(p[0] != "e" for p in pk.a):
                return None
            return cat(c("L"), *[q for p in pk.a for q in (name(p[1]), c("/"))], self.unparse(f, d["name"]), lst(d["suffix"], "."), c(";"))
        if n == "TypeParameter":
            return cat(name(d["name"]), c(":"), opt(d["class_bound"], ""), lst(d["interface_bounds"], ":"))
        if n == "ClassSignature":
            return cat(brack(d["type_parameters"]), self.unparse(f, d["super_class"]), lst(d["interfaces"]))
        if n == "MethodSignature":
            return cat(brack(d["type_parameters"]), c("("), lst(d["parameters"]), c(")"), opt(d["return_type"], "V"), lst(d["throws"]))
        return None

    def faithful(self, f, us, t):
        """does the value print as the text it came from? None: not determined, or a documented leniency"""
        ts = self.unparse(f, t)
        if ts is None:
            return None
        toks = []
        for i, u in enumerate(us):
            if u[0] == "rest":
                toks[-1] = ("X", u[1])
            else:
                toks.append(u[1])
        def eq(a, b):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if isinstance(x, tuple) or isinstance(y, tuple):
                    if x != y:
                        return False
                elif not self.eqc(f, x, y):
                    return False
            return True
        if eq(toks, ts):
            return True
        # empty angle brackets are read as none; a missing colon is read as no bounds
        lean, i = [], 0
        val = lambda x: None if isinstance(x, tuple) else f.value(x)
        for x in toks:
            if lean and val(x) == ord(">") and val(lean[-1]) == ord("<"):
                lean.pop()
            else:
                lean.append(x)
        if eq(lean, ts) or t.op == "adt" and self.tname(t.a[0]) == "TypeParameter" and eq(lean + [I(ord(":"))], ts):
            return None
        return False

    def show(self, f, us, closed):
        r = ""
        for u in us:
            if u[0] == "rest":
                r += "{%s}" % self.tname(u[1].a[1])
            else:
                x = f.value(u[1])
                r += chr(x) if x is not None and 32 <= x < 127 else "\\u{%x}" % x if x is not None else "?"
        return r + ("" if closed else "...")

    # ------------------------------------------------------------ deciding one function
    def run(self, ii, chars=None, steps=4000000):
        ip, T = self.ip, self.T
        x = self.mir["insts"][ii]
        s = ip.new_state()
        arg = T.new(s, chars)
        a0 = self.ty[x["locals"][1]]
        if a0.get("mut"):
            arg = mk("ref", s.alloc(mk("txt", 0, 0, -1)), ())
        T.root = ii
        self.cursor = arg.a[0] if a0.get("mut") else None
        ip.steps, ip.max_steps = 0, steps
        ip.obl.clear()
        return ip.run_fn(s, ii, [arg])

    def judge(self, ii, name, whole, outs, good, bad, und):
        ip, T = self.ip, self.T
        sh = T.shape(ii)
        for o in outs:
            us, closed = o.s.cells[("T", 0)].a[1:], bool(o.s.cells[("T", 0)].a[0])
            text = lambda: self.show(o.s.f, us, closed)
            if any(has_unk(k[0]) for k in o.s.f.order):
                und("path not determined", text())
                continue
            if o.k == "panic":
                bad("panic", "panics (%s) on %s" % (o.v, text()), spans(o.s.f, us))
                continue
            if o.v.op != "adt":
                und("result not determined", text())
                continue
            ok = o.v.a[1] == 0
            pos = val = None
            if ok:
                val = o.v.a[2]
                if whole:
                    pos = None
                elif sh[2][0] == "rest":
                    val = ip.deep(o.s, val)
                    if val.op != "tup":
                        und("result not determined", text())
                        continue
                    r = T.tx(o.s, val.a[sh[2][1]]) if val.a[sh[2][1]].op in ("ref", "txt") else None
                    val = val.a[1 - sh[2][1]]
                    if r is None or r.a[2] >= 0:
                        und("rest not determined", text())
                        continue
                    pos = r.a[1]
                else:
                    r = o.s.cells[self.cursor]
                    if r.op != "txt":
                        und("rest not determined", text())
                        continue
                    pos = r.a[1]
                val = ip.deep(o.s, val)
            fails = tuple((e[1].split("::")[-1], e[2]) for e in o.s.ev if e[0] == "ntfail")
            try:
                rs = (self.ref.nt if whole else lambda v, k, n: self.ref.rule(n)(v, k))(V(o.s.f.copy(), us, closed, fails), 0, name)
                if whole:
                    rs = self.ref.then(rs, lambda v, k, t: [(w, None if c is not None else k, t) for w, c in self.ref.peek(v, k)])
            except Open:
                und("reference needs more than the path shows", text())
                continue
            for v, k, tree in rs:
                if k is None:
                    if not ok:
                        good(False)
                        continue
                    n = pos if pos is not None else len(us)
                    if n > len(us) or (pos is None and not closed and len(v.u) > n):
                        und("accepted without looking at the end", text())
                        continue
                    r = self.faithful(v.f, us[:n], val)
                    if r is False:
                        bad("unfaithful", "the malformed text %s is read as a value that prints differently: %s" % (self.show(v.f, us, closed), show(val)[:200]), spans(v.f, us))
                    elif r:
                        good()
                    continue
                shown = self.show(v.f, v.u, v.closed)
                if not ok:
                    bad("rejects", "the well-formed text %s is rejected" % shown, spans(v.f, v.u))
                    continue
                if pos is not None and pos != k:
                    bad("length", "of %s, %d instead of %d units are read" % (shown, pos, k), spans(v.f, v.u))
                    continue
                r = self.same(v.f, val, tree)
                if r is None:
                    und("value not determined", shown + " " + show(val)[:200])
                elif r:
                    good(True)
                else:
                    bad("value", "the text %s is read as %s" % (shown, show(val)[:300]), spans(v.f, v.u))


def spans(f, us):
    return tuple(f.range(u[1]) if u[0] == "c" else None for u in us)


class Collect:
    def __init__(self):
        self.n, self.viol, self.und = 0, {}, {}
        self.right = {True: 0, False: 0}
        self.short = None   # ranges of the characters of the shortest text that goes wrong

    def good(self, ok=None):
        self.n += 1
        if ok is not None:
            self.right[ok] += 1

    def bad(self, k, text, where=None):
        self.viol.setdefault(k, text)
        if where and (self.short is None or len(where) < len(self.short)):
            self.short = where

    def undecided(self, k, text):
        self.und.setdefault(k, text)


def parsers(R, mir, names, roots, limits):
    """names: constructs; roots: {path of a whole-text parser: construct}; limits: characters per construct"""
    S = Sigs(mir, 7)
    ip, T = S.ip, S.T

    def one(ii, name, whole, limit=None, steps=4000000):
        c = Collect()
        T.limit = limit or limits.get(name, limits[None])
        try:
            outs = S.run(ii, steps=steps)
            S.judge(ii, name, whole, outs, c.good, c.bad, c.undecided)
            R.count("parser paths", len(outs))
        except (Budget, RecursionError, MemoryError, Exception) as e:
            ip.stack.clear()
            c.undecided("analysis", "%s %s" % (type(e).__name__, str(e)[:200]))
        return c

    cands = {}
    for i, x in enumerate(mir["insts"]):
        sh = T.shape(i)
        if sh and x["path"].startswith("coffer::") and "read_from" not in x["path"]:
            n = sh[0].split("::")[-1]
            if n in names and n in FIRST:
                cands[i] = n
    T.nts = {i: FIRST[n] for i, n in cands.items()}
    results = {}
    while True:
        never = []
        for i, n in sorted(cands.items()):
            if i in T.nts and i not in results:
                results[i] = c = one(i, n, False)
                if c.viol and not (c.right[True] and c.right[False]):
                    never.append(i)
        if not never:
            break
        # not a parser of that construct: taken as a part of its callers
        for i in never:
            del T.nts[i]
        results.clear()
        T.calls.clear()
    # Some parsers may be right for some texts and wrong for others. What such a parser does is judged by the texts given
    # to the parsers of the interface: it is run for real, and the other nested parsers are given texts they get right.
    wrong = [i for i, c in results.items() if c.viol]
    for i, c in results.items():
        if c.n and i not in wrong:
            R.good("%s reads %s" % (mir["insts"][i]["path"], cands[i]), c.n)
        for k, v in c.und.items():
            R.undecided("%s: %s" % (mir["insts"][i]["path"], k), v)
    R.count("nested parsers", len(results))
    shown = set()
    for i, x in enumerate(mir["insts"]):
        n = roots.get(x["path"])
        if n is None:
            continue
        c = one(i, n, True)
        R.count("parsers")
        if c.n:
            R.good("parse " + n, c.n)
        for k, v in c.und.items():
            R.undecided("parse %s: %s" % (n, k), v)
        for k, v in c.viol.items():
            R.bad("parse:%s:%s" % (n, k), v)
    for w in wrong:
        chains = sorted((len(c), c) for c in (chain(T.calls, i, w) for i in range(len(mir["insts"])) if mir["insts"][i]["path"] in roots) if c)
        short = results[w].short or ()
        for _, T.chain in chains:
            n = roots[mir["insts"][T.chain[0]]["path"]]
            for before in range(4):
                T.guide = (None,) * before + short
                d = one(T.chain[0], n, True, len(T.guide) + 2, 400000)
                for k, v in d.viol.items():
                    R.bad("parse:%s:%s" % (n, k), v)
                    shown.add(w)
                if w in shown:
                    break
            if w in shown:
                break
        T.guide = ()
        T.chain = ()
    for w in wrong:
        if w not in shown:
            R.undecided("%s as part of the parsers" % mir["insts"][w]["path"], "; ".join(results[w].viol.values())[:300])
    return S


def chain(calls, a, b):
    """a shortest chain of calls from a to b"""
    todo, seen = [(a,)], {a}
    for p in todo:
        if p[-1] == b:
            return p
        for q in sorted(calls.get(p[-1], ())):
            if q not in seen:
                seen.add(q)
                todo.append(p + (q,))
    return None


def dims(R, S, root, make):
    """arrays around the largest number of dimensions"""
    for i, x in enumerate(S.mir["insts"]):
        if x["path"] != root:
            continue
        for n in (1, 2, 254, 255, 256, 257):
            what = "%s of %d dimensions" % (root, n)
            try:
                S.ip.unroll = 600
                outs = S.run(i, "[" * n + "I")
            except (Budget, RecursionError, MemoryError, Exception) as e:
                S.ip.stack.clear()
                R.undecided(what, "%s %s" % (type(e).__name__, str(e)[:200]))
                continue
            finally:
                S.ip.unroll = 400
            for o in outs:
                if o.k == "panic":
                    R.bad("parse:%s:panic" % root, "panics (%s) on an array of %d dimensions" % (o.v, n))
                elif o.v.op != "adt":
                    R.undecided(what, show(o.v)[:200])
                elif n > 255:
                    # it cannot be represented
                    if o.v.a[1] == 0:
                        R.bad("parse:%s:dimensions" % root, "%d dimensions are accepted as %s" % (n, show(o.v)[:200]))
                    else:
                        R.good(what)
                elif o.v.a[1] == 1:
                    R.bad("parse:%s:dimensions" % root, "%d dimensions are rejected" % n)
                else:
                    r = S.same(o.s.f, S.ip.deep(o.s, o.v.a[2]), make(n))
                    if r is None:
                        R.undecided(what, show(o.v)[:200])
                    elif r:
                        R.good(what)
                    else:
                        R.bad("parse:%s:dimensions" % root, "%d dimensions are read as %s" % (n, show(o.v)[:200]))


# ---------------------------------------------------------------- printers
class Printers:
    def __init__(self, R, mir):
        self.R, self.mir = R, mir
        self.S = Sigs(mir, 7)
        self.ip, self.T, self.ty = self.S.ip, self.S.T, self.S.ty
        self.ip.unroll = 0

    def tokens(self, f, v, it=None):
        """normal form of an emitted text; None: not determined"""
        if v.op != "seq":
            v = mk("seq", ("sp", v))
        r = []
        for p in v.a:
            if p[0] == "k":
                r += list(p[1])
            elif p[0] in ("e", "sp") or p[0] == "be" and p[1] == 1:
                x = p[-1]
                if has_unk(x):
                    return None
                if x.op == "disp":
                    x = x.a[0]
                x = self.S.strip(x)
                b = const_bytes(x) if x.op == "seq" else None
                if isint(x):
                    r.append(x.a[0])
                elif b is not None:
                    r += list(b)
                elif x.op == "elem" and it is not None and x.a[1] is it:
                    r.append(("el", x.a[0]))
                else:
                    r.append(("t", x))
            elif p[0] == "rep":
                if f.value(p[2]) != 0:
                    r.append(("loop", p[2], [p[1].a[0] if isint(p[1]) else ("t", p[1])]))
            elif p[0] == "loop":
                if f.value(p[2]) == 0:
                    continue
                alts = [self.tokens(f, mk("seq", *ps) if ps else EMPTY, mk("it", p[1])) for g, ps in p[3]]
                if any(a is None for a in alts):
                    return None
                if len(alts) == 1:
                    r.append(("loop", p[2], alts[0]))
                else:
                    r.append(("alts", p[2], alts))
            else:
                return None
        return r

    def inlined(self, toks, lists):
        """parts of elements are printed in place: nothing is decided"""
        for t in toks:
            if isinstance(t, tuple) and t[0] == "alts":
                for a in t[2]:
                    if any(isinstance(x, tuple) and x[0] != "el" for x in a):
                        return True
            if isinstance(t, tuple) and t[0] == "loop" and any(isinstance(x, tuple) and x[0] != "el" for x in t[2]):
                return True
        return False

    def check(self, path, name, spec, lossy=False):
        """spec(variant, fields) -> expected tokens with ("list", term, pre, post) and ("some", term, tokens)"""
        R, ip = self.R, self.ip
        for x in self.mir["insts"]:
            if x["path"] == path:
                break
        else:
            return
        roots = [t[1]["inst"] for _, t, _ in x["blocks"] if t[0] == "call" and t[1].get("inst") is not None]
        if not roots:
            return
        root = roots[0]
        ti = self.ty[x["locals"][1]]["t"]
        R.count("printers")
        for vi, var in enumerate(self.ty[ti]["v"]):
            combos = [{}]
            for n, ft in var["f"]:
                t = self.ty[ft]
                new = []
                for c in combos:
                    if t.get("path") == "std::option::Option":
                        new.append(dict(c, **{n: (ip.adt(ft, 0), None)}))
                        y = mk("sym", n + "!", t["args"][0])
                        new.append(dict(c, **{n: (ip.adt(ft, 1, y), y)}))
                    else:
                        y = mk("sym", n, ft)
                        new.append(dict(c, **{n: (y, y)}))
                combos = new
            for c in combos:
                what = "%s %s %s" % (path.split("::")[-1], name, var["n"])
                try:
                    s = ip.new_state()
                    a = mk("ref", s.alloc(ip.adt(ti, vi, *[c[n][0] for n, _ in var["f"]])), ())
                    cell = s.alloc(EMPTY)
                    self.T.sink, self.T.root = (cell, ()), root
                    ip.steps, ip.max_steps = 0, 1000000
                    outs = ip.run_fn(s, root, [a, mk("ref", cell, ())])
                except (Budget, RecursionError, MemoryError, Exception) as e:
                    ip.stack.clear()
                    R.undecided(what, "%s %s" % (type(e).__name__, str(e)[:200]))
                    continue
                finally:
                    self.T.sink = None
                want = spec(name, var["n"], {n: v[1] for n, v in c.items()})
                if want is None:
                    R.undecided(what, "not specified")
                    continue
                for o in outs:
                    self.path(what, o, cell, want, lossy)

    def path(self, what, o, cell, want, lossy):
        R = self.R
        if o.k == "panic":
            R.bad("print:%s:panic" % what, "panics: %s" % o.v)
            return
        if o.v.op == "adt" and o.v.a[1] == 1:
            R.bad("print:%s:error" % what, "fails although the sink did not")
            return
        lists = [t[1] for t in want if isinstance(t, tuple) and t[0] in ("list", "some", "rep")]
        fs = [o.s.f]
        for l in lists:
            n = l if self.is_int(l) else mk("len", l)
            nxt = []
            for f in fs:
                if f.value(n) == 0 or f.range(n)[0] > 0:
                    nxt.append(f)
                    continue
                g, h = f.copy(), f.copy()
                try:
                    g.bound(n, 0, 0)
                    nxt.append(g)
                except Infeasible:
                    pass
                try:
                    h.bound(n, 1, 1 << 56)
                    nxt.append(h)
                except Infeasible:
                    pass
            fs = nxt
        for f in fs:
            got = self.tokens(f, o.s.cells[cell])
            if got is None or any(has_unk(k[0]) for k in f.order):
                R.undecided(what, show(o.s.cells[cell])[:300])
                continue
            exp = self.expected(f, want, lossy)
            if got == exp:
                R.good(what)
            elif self.inlined(got, lists):
                n = self.shortlist(f, got, exp, lists)
                if n:
                    R.bad("print:" + what, "with lists of %d, prints %s instead of %s" % (n[0], self.text(n[1]), self.text(n[2])))
                else:
                    R.undecided(what, str(got)[:300])
            else:
                R.bad("print:" + what, "prints %s instead of %s%s" % (
                    self.text(got), self.text(exp), "".join("; %s %s" % (show(k[0])[:60], k[1:]) for k in f.order[:4])))

    def shortlist(self, f, got, exp, lists):
        """a length of the lists for which the texts differ"""
        for n in (1, 2, 3):
            g = f.copy()
            try:
                for l in lists:
                    g.bound(l if self.is_int(l) else mk("len", l), n, n)
            except Infeasible:
                continue
            a, b = self.expand(g, got), self.expand(g, exp)
            if a is not None and b is not None and a != b:
                return n, a, b
        return None

    def expand(self, f, toks):
        """without loops; None: not determined"""
        r = []
        for t in toks:
            if isinstance(t, int) or t[0] == "t":
                if not isinstance(t, int) and contains(t[1], lambda x: x.op in ("it", "phi")):
                    return None
                r.append(t)
            elif t[0] == "loop":
                n = f.value(t[1])
                if n is None or n > 8:
                    return None
                for i in range(n):
                    for x in t[2]:
                        if isinstance(x, int):
                            r.append(x)
                        elif x[0] == "el":
                            r.append(("t", mk("elem", x[1], I(i), -1)))
                        elif x[0] == "t" and x[1].op == "elem":
                            its = [y for y in walk(x[1].a[1]) if y.op == "it"]
                            k = self.ip.subst(x[1].a[1], {y: I(i) for y in its}, f)
                            if len(its) != 1 or not isint(k):
                                return None
                            r.append(("t", mk("elem", x[1].a[0], k, -1)))
                        else:
                            return None
            else:
                return None
        return [("t", mk("elem", x[1].a[0], x[1].a[1], -1)) if isinstance(x, tuple) and x[1].op == "elem" else x for x in r]

    def is_int(self, t):
        return self.ty[t.a[1]]["k"] == "int" if t.op == "sym" and isinstance(t.a[1], int) and t.a[1] >= 0 else False

    def expected(self, f, want, lossy):
        r = []
        for t in want:
            if isinstance(t, str):
                r += [ord(c) for c in t]
            elif isinstance(t, Term):
                r.append(("t", t))
            elif t[0] == "name":
                r.append(("t", mk("app", "lossy", t[1], -1) if lossy else t[1]))
            elif t[0] == "rep":
                if f.value(t[1]) != 0:
                    r.append(("loop", t[1], [ord(t[2])]))
            elif t[0] == "list":
                n = mk("len", t[1])
                if f.value(n) != 0:
                    r.append(("loop", n, [ord(c) for c in t[2]] + [("el", t[1])] + [ord(c) for c in t[3]]))
            elif t[0] == "some":
                if f.value(mk("len", t[1])) != 0:
                    r += self.expected(f, t[2], lossy)
        return r

    def text(self, ts):
        r = ""
        for t in ts:
            r += chr(t) if isinstance(t, int) else "{%s}" % show(t[1])[:60] if t[0] in ("t", "el") else "(%s)*" % self.text(t[2]) if t[0] == "loop" else "(..)*"
        return r


def printed(name, var, d):
    L = lambda x, a="", b="": ("list", d[x], a, b)
    B = lambda x: ("some", d[x], ["<", L(x), ">"])
    g = lambda i=0: d.get(str(i))
    inv = {b: a for a, b in PRIM.items()}
    opt = lambda x, none: [none] if d[x] is None else [d[x]]
    try:
        if name in ("TypeSignature", "Type") and var in inv:
            return [inv[var]]
        if var == "ArrayRef":
            return [("rep", g(0), "["), g(1)]
        if name == "Type":
            return ["L", ("name", g()), ";"] if var == "Ref" else ["(", L("parameters"), ")"] + opt("ret", "V")
        if name == "FieldSignature" or (name, var) in (("TypeSignature", "Ref"), ("RefTypeSignature", "ClassType"), ("TypeArgument", "Exact")):
            return [g()]
        if name == "RefTypeSignature":
            return ["T", g(), ";"]
        if name == "Throws":
            return ["^T", g(), ";"] if var == "TypeParameter" else ["^", g()]
        if name == "TypeArgument":
            return {"Any": ["*"], "Extends": ["+", g()], "Super": ["-", g()]}[var]
        if name == "SimpleClassTypeSignature":
            return [d["name"], B("type_arguments")]
        if name == "ClassTypeSignature":
            return ["L", L("package", "", "/"), d["name"], L("suffix", "."), ";"]
        if name == "TypeParameter":
            return [d["name"], ":"] + opt("class_bound", "") + [L("interface_bounds", ":")]
        if name == "ClassSignature":
            return [B("type_parameters"), d["super_class"], L("interfaces")]
        if name == "MethodSignature":
            return [B("type_parameters"), "(", L("parameters"), ")"] + opt("return_type", "V") + [L("throws")]
    except KeyError:
        return None
    return None
