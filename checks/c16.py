"""C16: equality is exact, and hashing and ordering agree with it."""
from codec import Codecs, has_unk
from interp import Budget, Out
from terms import *

RULE = (
    "Every implementation of equality in the crates is either generated by the compiler (it then compares all parts) or its MIR is "
    "interpreted on two symbolic values, for every pair of variants: a path that answers equal must have established that the "
    "variant and every part are equal (floats: the bits), one that answers different that something differs. Every handwritten "
    "comparison must answer Equal exactly for equal values and swap its answer with its arguments; every hash may depend only on the content (no addresses), "
    "so that equal values have equal hashes."
)
ASSUMPTIONS = [
    "implementations generated by derive compare, order and hash all parts in order",
    "strings are equal when their code points are (C08); the parts of a value are compared by implementations decided here",
]
ADDRESS = ("as_ptr", "addr", "expose_provenance", "into_raw", "as_mut_ptr", "ptr_eq")


class Laws:
    def __init__(self, R, mir):
        self.R, self.mir = R, mir
        self.C = Codecs(mir)
        self.ip = self.C.ip
        self.ty = self.ip.ty
        self.ip.models.STRUCTURAL = ("Wtf8Str", "Wtf8String")
        self.root = None
        self.ip.atoms.insert(0, self.atom)

    def atom(self, ip, s, f, a, dti, site):
        """equality of the parts: decided on their own"""
        nm = f.get("name") or f.get("rname")
        p = f.get("rpath") or f.get("path") or ""
        M = ip.models
        if p.endswith("::ptr_eq"):
            # the same place has the same content; different places may have it too
            x, y = ip.deep(s, a[0]), ip.deep(s, a[1])
            res = []
            for c, st in M.fork(s, ip.mk_app("ptr_eq", x, y, -1)):
                if c:
                    for d, st2 in M.fork(st, ip.mk_eq(st.f, x, y)):
                        if d:
                            res.append((st2, ONE))
                else:
                    res.append((st, ZERO))
            return M.outs(*res)
        if "OnceCell" in p and p.endswith("::get"):
            c = M.val(s, a[0])
            for _ in range(4):
                if c.op == "ref":
                    c = M.val(s, c)
            if c.op != "sym":
                return None
            v = ip.mk_app("cell_val", c, self.C.deref_ty(self.ty[dti]["args"][0]))
            return M.outs(*[(st, M.some(dti, mk("ref", ("O", v), ())) if q else M.none(dti)) for q, st in M.fork(s, ip.mk_app("isset", c, -1))])
        if f.get("trait") == "std::cmp::PartialEq" and nm in ("eq", "ne") and len(a) == 2 and f.get("inst") != self.root and "inst" in f:
            x = self.mir["insts"][f["inst"]]
            if x["crate"] in ("coffer", "wtf_8") and x.get("name") == "eq" and x["locals"][1] == x["locals"][2]:
                t = self.ty[self.ty.strip(x["locals"][1])]
                if t["k"] == "float":
                    return None
                r = ip.mk_eq(s.f, ip.deep(s, a[0]), ip.deep(s, a[1]))
                return M.ret(s, r if nm == "eq" else ip.mk_not(r))
        return None

    # ---------------------------------------------------------------- values
    def values(self, ti, tag):
        """[(variant, value, [parts])]"""
        t = self.ty[ti]
        if t["k"] != "adt":
            v = mk("sym", tag, ti)
            return [(0, v, [v])]
        r = []
        for vi, var in enumerate(t["v"]):
            fs = [mk("sym", "%s.%s" % (tag, n), q) for n, q in var["f"]]
            r.append((vi, self.ip.adt(ti, vi, *fs), fs))
        return r

    def same(self, f, xs, ys):
        """True, False or None: are the parts equal"""
        ans = True
        for x, y in zip(xs, ys):
            d = self.part(f, x, y)
            if d == 0:
                return False
            if d != 1:
                ans = None
        return ans

    def part(self, f, x, y):
        ip = self.ip
        d = f.decide(ip.mk_eq(f, x, y))
        if d is not None:
            return d
        t = self.ty[self.ty.strip(x.a[1])] if x.op == "sym" else {}
        if t.get("k") == "float":
            for k in f.order:
                for z in walk(k[0]):
                    if z.op == "app" and z.a[0] == "fbits" and z.a[1] is x:
                        q = sub(z, ip.mk_app("fbits", y, z.a[2]))
                        lo, hi = f.range(q)
                        return 1 if lo == hi == 0 else 0 if f.excluded(q, 0) or lo > 0 or hi < 0 else None
        a, b = (f.decide(ip.mk_app("isset", z, -1)) for z in (x, y))
        if a is not None and b is not None:
            if a != b:
                return 0
            if a == 0:
                return 1
            for k in f.order:
                for z in walk(k[0]):
                    if z.op == "app" and z.a[0] == "cell_val" and z.a[1] is x:
                        return f.decide(ip.mk_eq(f, z, ip.mk_app("cell_val", y, z.a[2])))
        return None

    def pairs(self, ti):
        A, B = self.values(ti, "a"), self.values(ti, "b")
        for va, x, xs in A:
            for vb, y, ys in B:
                if len(A) > 8 and va != vb and (vb - va) % len(A) not in (1, len(A) - 1):
                    continue
                yield va, x, xs, vb, y, ys

    def eq(self, ii, x):
        R, ip = self.R, self.ip
        ti = self.ty[x["locals"][1]]["t"]
        name = self.ty[ti].get("path") or str(self.ty[ti]["k"])
        self.root = ii
        for va, v, xs, vb, w, ys in self.pairs(ti):
            for o, f, r in self.answers(ii, [v, w], "equality of " + name):
                if r is None:
                    R.undecided("equality of " + name, show(o.v)[:200])
                    continue
                same = self.same(f, xs, ys) if va == vb else False
                what = self.ty[ti]["v"][va]["n"] if self.ty[ti]["k"] == "adt" else name
                if r == 1 and same is not True:
                    R.bad("equality:%s:%s" % (name, what), "%s: two values of variant %s are equal although %s" % (
                        x["path"], what, "their variants differ" if va != vb else "not all of their parts are"))
                elif r == 0 and same is not False:
                    R.bad("equality:%s:%s" % (name, what), "%s: two values of variant %s differ although their parts may be equal" % (x["path"], what))
                else:
                    R.good("equality of " + name)

    def answers(self, ii, vs, what):
        ip = self.ip
        try:
            s = ip.new_state()
            args = [mk("ref", s.alloc(v), ()) for v in vs]
            ip.steps, ip.max_steps = 0, 400000
            outs = ip.run_fn(s, ii, args)
        except (Budget, RecursionError, MemoryError, Exception) as e:
            ip.stack.clear()
            self.R.undecided(what, "%s %s" % (type(e).__name__, str(e)[:200]))
            return
        for o in outs:
            if o.k == "panic":
                self.R.bad(what.replace(" of ", ":") + ":panic", "may panic: %s" % (o.v,))
                continue
            if any(has_unk(k[0]) for k in o.s.f.order) or has_unk(o.v):
                yield o, o.s.f, None
            elif o.v.op == "adt":
                yield o, o.s.f, o.v
            elif isint(o.v):
                yield o, o.s.f, o.v.a[0]
            else:
                for c, st in ip.models.fork(o.s, o.v):
                    yield o, st.f, c

    def cmp(self, ii, x):
        R, ip = self.R, self.ip
        ti = self.ty[x["locals"][1]]["t"]
        name = self.ty[ti].get("path") or "?"
        what = "%s of %s" % (x["name"], name)
        self.root = ii
        for va, v, xs, vb, w, ys in self.pairs(ti):
            for o, f, r in self.answers(ii, [v, w], what):
                k = self.ordering(r)
                if k is None:
                    R.undecided(what, show(o.v)[:200])
                    continue
                same = self.same(f, xs, ys) if va == vb else False
                if (k == 1) != (same is True) or k == 1 and same is None or k != 1 and same is None:
                    R.bad("order:%s" % what, "%s: %s although the values %s" % (
                        x["path"], "Equal" if k == 1 else "not Equal", "are equal" if same else "may differ" if k == 1 else "may be equal"))
                else:
                    R.good(what)
                # the other way round
                for o2, f2, r2 in self.answers_on(o, ii, [w, v], what):
                    k2 = self.ordering(r2)
                    if k2 is None:
                        R.undecided(what, show(o2.v)[:200])
                    elif k + k2 == 2:
                        R.good(what + ", swapped")
                    elif not self.possible(f2, v, w):
                        continue
                    else:
                        R.bad("order:%s:swapped" % what, "%s: both ways round %s" % (x["path"], ("Less", "Equal", "Greater")[k]))

    def possible(self, f, x, y):
        """totlt(a, b) and totlt(b, a) are not both true, nor both false unless equal"""
        a, b = None, None
        for k in f.order:
            t = k[0]
            if t.op == "app" and t.a[0] == "totlt":
                if a is None:
                    a = (t, f.decide(t))
                else:
                    b = (t, f.decide(t))
        if a and b and a[0].a[1] is b[0].a[2] and a[1] == b[1]:
            return False
        return True

    def answers_on(self, o, ii, vs, what):
        ip = self.ip
        try:
            s = o.s.copy()
            args = [mk("ref", s.alloc(v), ()) for v in vs]
            outs = ip.run_fn(s, ii, args)
        except (Budget, RecursionError, MemoryError, Exception) as e:
            ip.stack.clear()
            self.R.undecided(what, "%s %s" % (type(e).__name__, str(e)[:200]))
            return
        for q in outs:
            if q.k == "ret":
                yield q, q.s.f, (q.v if q.v.op == "adt" else None)

    def ordering(self, r):
        if r is None or not isinstance(r, Term):
            return None
        p = self.ty[r.a[0]].get("path")
        if p == "std::option::Option":
            if r.a[1] != 1 or r.a[2].op != "adt":
                return None
            return r.a[2].a[1]
        return r.a[1] if p == "std::cmp::Ordering" else None

    def hash(self, ii, x, seen=None):
        """calls and hashed types from which the address of something could get in"""
        seen = set() if seen is None else seen
        if ii in seen:
            return None
        seen.add(ii)
        for st, t, _ in x["blocks"]:
            for s in st:
                if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                    return "an address"
            if t[0] != "call":
                continue
            f = t[1]
            nm = f.get("name") or (f.get("path") or "?").split("::")[-1]
            if nm in ADDRESS or "ptr::hash" in (f.get("path") or ""):
                return f.get("path")
            if f.get("trait") == "std::hash::Hash" and self.ty[f["self"]]["k"] == "ptr":
                return "the address in a pointer"
            if "inst" in f and self.mir["insts"][f["inst"]]["crate"] in ("coffer", "wtf_8"):
                r = self.hash(f["inst"], self.mir["insts"][f["inst"]], seen)
                if r:
                    return r
        return None

    def run(self):
        R = self.R
        for ii, x in enumerate(self.mir["insts"]):
            if x["crate"] not in ("coffer", "wtf_8") or "{closure" in x["path"]:
                continue
            tr, nm = x.get("trait") or "", x.get("name")
            tr = tr.split("<")[0]
            if tr == "std::cmp::PartialEq" and nm in ("eq", "ne"):
                R.count("equalities")
                if x.get("derived"):
                    R.good("derived equality")
                elif x["locals"][1] == x["locals"][2] and nm == "eq" and x["crate"] == "coffer":
                    self.eq(ii, x)
                elif nm == "ne":
                    R.undecided("inequality " + x["path"], "handwritten")
            elif tr in ("std::cmp::Ord", "std::cmp::PartialOrd") and nm in ("cmp", "partial_cmp"):
                R.count("orders")
                if x.get("derived"):
                    R.good("derived order")
                elif x["locals"][1] == x["locals"][2] and x["crate"] == "coffer":
                    self.cmp(ii, x)
            elif tr == "std::hash::Hash" and nm == "hash":
                R.count("hashes")
                if x.get("derived"):
                    R.good("derived hash")
                else:
                    r = self.hash(ii, x)
                    if r:
                        R.bad("hash:" + x["path"], "%s depends on %s" % (x["path"], r))
                    else:
                        R.good("hash " + x["path"])


def run(R, mir):
    L = Laws(R, mir)
    L.run()
    R.floor("equalities", 60)
    R.floor("hashes", 30)
