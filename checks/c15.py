"""C15: constructors, classifications and validity checks."""
from codec import Codecs, has_unk, has_bad
from interp import Budget
from state import Infeasible
from terms import *

RULE = (
    "Each public constructor, conversion, classification and validity check is paired with a reference function written from "
    "the documentation and the JVM specification (probe/src/query.rs). Both are abstractly interpreted from MIR on the same "
    "symbolic arguments (every variant of an enumeration separately, names of method handles also as explicit texts); on "
    "every pair of compatible paths the results must be equal, and neither may panic."
)
ASSUMPTIONS = [
    "names that a validity check looks at are explored as the texts <init>, <clinit>, near misses of them, and as an arbitrary text",
]
NAMES = ["<init>", "<clinit>", "", "<", "<init", "init>", "<init>x", "x<init>", "<Init>", "<clini", "<clinit>x", "foobar", "abcdefgh", "init", "clinit", "<>", "<a>", "<INIT>", "<foo>", "<foobar>", "java/lang/Object", "\u00e9"]


class Q:
    def __init__(self, R, mir):
        self.R, self.mir = R, mir
        C = Codecs(mir)
        self.ip, self.ty = C.ip, C.ty

    def values(self, name, ti):
        """[(label, value)] covering a type"""
        t = self.ty[ti]
        if t["k"] == "adt" and t["adt"] == "enum" and len(t["v"]) > 1:
            for vi, var in enumerate(t["v"]):
                fs = [mk("sym", "%s.%s.%s" % (name, var["n"], n), x) for n, x in var["f"]]
                yield var["n"], self.ip.adt(ti, vi, *fs)
        elif t["k"] == "adt" and t["path"].endswith("::MethodHandle"):
            (kn, kt), (mn, mt) = t["v"][0]["f"]
            if kn != "kind":
                yield "", mk("sym", name, ti)
                return
            mem = self.ty[mt]["v"][0]["f"]
            for vi, var in enumerate(self.ty[kt]["v"]):
                k = self.ip.adt(kt, vi)
                dt = next(x for n, x in mem if n == "descriptor")
                for di, dv in enumerate(self.ty[dt]["v"]):
                    d = self.ip.adt(dt, di, *[mk("sym", "%s.%s" % (dv["n"], n), x) for n, x in dv["f"]])
                    for nm in NAMES + [None]:
                        fs = [d if n == "descriptor" else self.name(x, nm) if n == "name" else mk("sym", n, x) for n, x in mem]
                        yield "%s %s %s" % (var["n"], dv["n"], "any name" if nm is None else repr(nm)), self.ip.adt(
                            ti, 0, k, self.ip.adt(mt, 0, *fs))
        else:
            yield "", mk("sym", name, ti)

    def name(self, ti, nm):
        if nm is None:
            return mk("sym", "name", ti)
        return seq((("k", nm.encode()),)) if nm else EMPTY

    def pair(self, a, b):
        R, ip = self.R, self.ip
        x = self.mir["insts"][a]
        what = x["path"].split("::of_")[1]
        R.count("functions")
        combos = [((), [])]
        for i in range(x["argc"]):
            ti = x["locals"][i + 1]
            combos = [(l + ((n,) if n else ()), v + [w]) for l, v in combos for n, w in self.values("a%d" % i, ti)]
        for lab, args in combos:
            key = what + (" of " + ", ".join(lab) if lab else "")
            try:
                ip.steps = 0
                outs = ip.run_fn(ip.new_state(), a, list(args))
                for o in outs:
                    self.compare(key, o, b, args)
            except (Budget, Infeasible, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
                ip.stack.clear()
                R.undecided(key, "%s %s" % (type(e).__name__, e))

    def compare(self, key, o, b, args):
        R, ip = self.R, self.ip
        R.count("paths")
        opaque = any(has_unk(f[0]) for f in o.s.f.order)
        if o.k == "panic":
            if opaque:
                R.undecided(key, "panic on a path with unmodelled values")
            else:
                R.bad(key, "panics: %s" % o.v)
            return
        v = ip.deep(o.s, o.v)
        for r in ip.run_fn(o.s.copy(), b, list(args)):
            if r.k == "panic":
                R.undecided(key, "the reference panics: %s" % r.v)
                continue
            w = ip.deep(r.s, r.v)
            vv = ip.deep(r.s, v)
            e = r.s.f.decide(ip.mk_eq(r.s.f, vv, w))
            if e == 1:
                R.good(key)
            elif "any name" in key and (e != 0 or any(contains(f[0], lambda x: x.op == "sym" and x.a[0] == "name") for f in r.s.f.order)):
                R.undecided(key, "not compared for an arbitrary name")
            elif opaque or has_unk(vv) or has_unk(w) or any(has_unk(f[0]) or not plain(f[0]) for f in r.s.f.order) or (e != 0 and not plain(vv)):
                R.undecided(key, "unmodelled: %s" % show(vv)[:300])
            else:
                g = "; ".join("%s:%s" % (show(f[0])[:80], f[1:]) for f in r.s.f.order)
                R.bad(key, "gives %s, documented is %s%s" % (show(vv)[:400], show(w)[:400], " when " + g if g else ""))


def plain(t):
    """no predicate about texts whose relation to other predicates is not decided"""
    return not contains(t, lambda x: x.op in ("app", "phi", "opaque", "mget"))


def run(R, mir):
    q = Q(R, mir)
    by = {x["path"]: i for i, x in enumerate(mir["insts"]) if x["path"].startswith("query::")}
    for p, i in sorted(by.items()):
        if p.startswith("query::of_") and "{" not in p:
            q.pair(i, by[p.replace("::of_", "::is_")])
    if not R.counts.get("functions"):
        R.undecided("functions", "the reference functions do not compile against this tree")
