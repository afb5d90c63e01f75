"""C12: what does not fit its field is refused, never cut off."""
from codec import Codecs, tainted, has_unk
from interp import Budget, Out
from state import Infeasible
from terms import *
import c11

RULE = (
    "Every writer is abstractly interpreted on an arbitrary value with unbounded list and text lengths. On every path that "
    "succeeds, each emitted number that is the low part of a larger quantity must be provably equal to that quantity (or the "
    "remaining bits are emitted as well), and no arithmetic that leads to it may overflow, which release builds do silently. "
    "An obligation is one number emitted on one path."
)
ASSUMPTIONS = [
    "jump distances, code positions and the code length are decided by C04, operands of instructions by C03, indices of the constant pool by C06",
    "lengths in memory are at most 2^56",
]


def slices(t, acc):
    """(x, lo, width) of all bit slices in t, not looking into sequences"""
    if not isinstance(t, Term):
        return acc
    if t.op == "bits":
        acc.append((t.a[0], t.a[1], t.a[2]))
        slices(t.a[0], acc)
        return acc
    if t.op == "wrap":
        acc.append((t.a[2], 0, t.a[0] - (1 if t.a[1] else 0)))
        return acc
    for x in t.a:
        if isinstance(x, Term) and x.op not in ("seq", "loop"):
            slices(x, acc)
    return acc


class Fits(c11.NoPanic):
    def known(self, t):
        if not self.strict and contains(t, lambda y: y.op in ("seq", "phi", "it")):
            return False
        return not contains(t, lambda y: y.op in ("unk", "undef", "mget", "acc", "opaque") or (y.op == "app" and y.a[0] in ("off",)))

    def numbers(self, f, pieces, depth=0):
        """(facts, term) for each emitted number"""
        for p in pieces:
            if p[0] == "be":
                yield f, p[2]
            elif p[0] in ("loop", "lp") and depth < 6:
                for gs, ps in p[3]:
                    g = f.copy()
                    try:
                        self.ip.apply_guards(g, gs, {})
                    except Infeasible:
                        continue
                    yield from self.numbers(g, ps, depth + 1)
            elif p[0] == "sp" and isinstance(p[1], Term) and p[1].op == "seq" and depth < 6:
                yield from self.numbers(f, p[1].a, depth + 1)

    def judge(self, name, outs):
        R = self.R
        n = 0
        for o in outs:
            if o.k == "panic":
                if "overflow" in str(o.v) and self.strict and not tainted(o.s):
                    R.bad("overflow:%s:%s" % (name, o.v), "arithmetic wraps in release builds when " + "; ".join(
                        "%s:%s" % (show(a[0])[:120], a[1:]) for a in o.s.f.order[-6:]))
                continue
            if o.v.op != "adt" or o.v.a[1] != 0:
                continue
            nums = list(self.numbers(o.s.f, o.pieces))
            parts = {}
            for f, t in nums:
                for x, lo, w in slices(t, []):
                    parts.setdefault(x, set()).add((lo, w))
            for f, t in nums:
                bad = None
                for x, lo, w in slices(t, []):
                    if not self.known(x):
                        continue
                    rl, rh = f.range(x)
                    if rl >= 0 and rh < 1 << (lo + w):
                        continue
                    if lo == 0 and rl >= -(1 << (w - 1)) and rh < 1 << (w - 1):
                        continue  # a signed quantity of that width
                    # the other bits may be emitted elsewhere
                    top = max(a + b for a, b in parts[x])
                    if rl >= 0 and rh < 1 << top:
                        continue
                    if rl >= -(1 << (top - 1)) and rh < 1 << (top - 1):
                        continue
                    bad = (x, lo + w, rl, rh)
                    break
                if bad is None:
                    n += 1
                    continue
                if has_unk(t) or tainted(o.s):
                    R.undecided("%s: %s" % (name, show(bad[0])[:60]), "unmodelled")
                    continue
                R.bad("cut:%s:%s" % (name, describe(self.C, bad[0])), "writes only the low %d bits of %s, which may be %s..%s" % (
                    bad[1], show(bad[0])[:300], bad[2], bad[3]))
        if n:
            R.good(name, n)

    def sites(self, name):
        self.ip.obl.clear()

    strict = True

    def writers(self):
        C, R, ip = self.C, self.R, self.ip
        for k in sorted(C.index):
            for i in C.index[k].get("write_to", ())[:1]:
                C.root = i
                x = self.mir["insts"][i]
                self.strict = not k[1].endswith("::Code")
                if self.run_one("write %s as %s" % (k[1], k[0]), lambda: C.run_writer(ip.new_state(), i, mk("sym", "self", x["self"]))):
                    R.count("writers")
        R.floor("writers", 60)


def describe(C, t):
    """stable name of a quantity"""
    import re

    s = show(t)
    return re.sub(r"\d+", "#", s)[:80]


def run(R, mir):
    Fits(R, mir).writers()
