"""Loops over strings: inductive exploration of a loop on inputs described token by token.

A token grammar (a finite automaton whose moves are byte patterns) describes the inputs.
The states of the code at the loop head, taken at token boundaries, are abstracted to
 - the cursor and everything that moves with it, as an offset from the boundary P,
 - accumulators, of which only what each token appends is looked at,
 - the remaining values, kept as they are,
and explored to a fixpoint together with the automaton, so that the result holds for
strings of any length. Nothing is enumerated but automaton states and tokens."""
from terms import *
from state import Facts, Infeasible
from interp import Out
from bdd import Bits, NoBits
from codec import has_unk

BIG = 1 << 56


class GiveUp(Exception):
    pass


class Move:
    """pat: list of byte sets, each a list of (lo, hi); la: look-ahead constraint
    (None | 'end' | list of byte sets that follow); out: f(elements) -> expected pieces"""

    def __init__(self, name, pat, to, out=None, la=None, bad=False):
        self.name, self.pat, self.to, self.out, self.la, self.bad = name, pat, to, out, la, bad


def boxes(pat):
    """product of unions of intervals as a list of interval vectors"""
    r = [()]
    for alts in pat:
        r = [x + (a,) for x in r for a in alts]
    return r


def kid(k):
    return (str(k[0]), str(k[1]))


class Explorer:
    debug = False
    free = False    # the boundary follows the cursor: tokens only constrain the next bytes

    def __init__(self, ip, inst, buf, ety, spec, start, unit=False):
        self.ip, self.inst, self.buf, self.ety = ip, inst, buf, ety
        self.spec, self.start = spec, start
        self.loops = []          # explored loops in order
        self.busy = False
        self.P = None
        self.exits = {}
        self.problems = []       # (what, detail)
        self.und = []
        self.steps = 0
        self.nmoves = 0

    # -- hook
    def hook(self, fr, header, s, body):
        if self.busy or fr[0] != self.inst:
            return None
        cur = self.cursor(s)
        if cur is None:
            return None
        self.busy = True
        try:
            return self.explore(fr, header, s, body, cur)
        finally:
            self.busy = False

    def cells(self, s):
        return [c for c in s.cells if c[0] in ("L", "H")]

    def cursor(self, s):
        """leaf of an iterator over the buffer: (cell, path)"""
        res = None
        for c in self.cells(s):
            r = self.find_iter(s, s.cells[c], ())
            if r is not None and (res is None or self.leaf(s, (c, r)) is ZERO):
                res = (c, r)
        return res

    def find_iter(self, s, v, path):
        if not isinstance(v, Term):
            return None
        if v.op == "adt":
            t = self.ip.ty[v.a[0]]
            if t.get("path") == "std::slice::Iter" and len(v.a) >= 5:
                base = v.a[2]
                if base.op == "ref" and self.ip.deep(s, base) is self.buf:
                    return path + (3,)
        if v.op in ("adt", "tup", "clo"):
            off = {"adt": 2, "tup": 0, "clo": 1}[v.op]
            for i in range(off, len(v.a)):
                r = self.find_iter(s, v.a[i], path + (i,))
                if r is not None:
                    return r
        return None

    def el(self, j):
        return mk("elem", self.buf, add(self.P, I(j)) if self.P is not None else I(j), self.ety)

    def leaf(self, s, lf):
        v = s.cells.get(lf[0])
        if v is None:
            raise GiveUp("a live value disappears")
        try:
            return self.ip.leaf(v, lf[1])
        except (IndexError, AttributeError):
            raise GiveUp("a live value changes its shape")

    # -- moves from a state at a boundary
    def constrain(self, s, box, la, end):
        """assume that the bytes from the boundary on match"""
        f = s.f
        n = len(box)
        L = mk("len", self.buf)
        base = self.P if self.P is not None else ZERO
        if end:
            f.bound(sub(L, base), 0, 0)
            return
        tot = n + (len(la) if isinstance(la, (list, tuple)) else 0)
        if la == "end":
            f.bound(sub(L, add(base, I(n))), 0, 0)
        else:
            f.bound(sub(L, add(base, I(tot))), 0, BIG)
        for j, (lo, hi) in enumerate(box):
            f.bound(self.el(j), lo, hi)
        if isinstance(la, (list, tuple)):
            for j, (lo, hi) in enumerate(la):
                f.bound(self.el(n + j), lo, hi)

    def feasible(self, s):
        try:
            B = Bits(s.f)
            return B.assume(s.f.order) != 0
        except NoBits:
            return True

    def advance(self, s, body, cur, n):
        """iterate the body until the cursor has passed n bytes: (aligned states, exits)"""
        done, exits = [], []
        base = self.P if self.P is not None else ZERO
        work = [(s, 0)]
        while work:
            st, k = work.pop()
            if k > 2 * n + 8:
                raise GiveUp("no progress")
            for o in body(st):
                if o.k == "back":
                    d = sub(self.leaf(o.s, cur), base)
                    if not isint(d):
                        raise GiveUp("cursor not determined: " + show(d)[:80])
                    if not self.feasible(o.s):
                        continue
                    if d.a[0] >= n:
                        done.append((o.s, d.a[0]))
                    else:
                        work.append((o.s, k + 1))
                elif self.feasible(o.s):
                    exits.append(o)
        return done, exits

    def moves(self, q):
        for m in self.spec[q]:
            las = [None]
            if m.la == "end":
                las = ["end"]
            elif m.la:
                las = boxes(m.la)
            for b in boxes(m.pat):
                for la in las:
                    yield m, b, la

    # -- classification of what the loop carries
    def classify(self, s0, body, cur):
        """first exploration from the entry: which leaves move, grow or vary"""
        P = self.P
        self.P = None
        kinds = {}
        try:
            pos0 = self.leaf(s0, cur)
            if pos0 is not ZERO:
                raise GiveUp("the loop does not start at the beginning")
            seen = []
            for m, b, la in self.moves(self.start):
                if m.bad:
                    continue
                st = s0.copy()
                try:
                    self.constrain(st, b, la, False)
                    done, _ = self.advance(st, body, cur, len(b))
                except Infeasible:
                    continue
                seen += [(x, len(b), d) for x, d in done]
            for c in self.cells(s0):
                v0 = s0.cells[c]
                paths = {}
                for x, n, d in seen:
                    v1 = x.cells.get(c)
                    if v1 is None:
                        raise GiveUp("a live value disappears")
                    for path, k in self.ip.diff(v0, v1, ()):
                        paths.setdefault(path, []).append((n, d, k))
                # keep the outermost differing leaves
                for path in sorted(paths, key=len):
                    if any(path[: len(q)] == q for (cc, q) in kinds if cc == c):
                        continue
                    ks = paths[path]
                    inds = {k[1] - n for n, d, k in ks if isinstance(k, tuple)}
                    indc = {k[1] - d for n, d, k in ks if isinstance(k, tuple)}
                    allind = all(isinstance(k, tuple) for _, _, k in ks) and len(ks) == len(seen)
                    if allind and (inds == {0} or indc == {0}):
                        kinds[(c, path)] = "rel"
                    elif all(k == "acc" for _, _, k in ks):
                        kinds[(c, path)] = "acc"
                    elif any(isinstance(k, tuple) for _, _, k in ks) and not self.isbool(c, path):
                        kinds[(c, path)] = "int"
                    else:
                        kinds[(c, path)] = "disc"
            # locals that are not initialised at the entry are written before they are read in every iteration
        finally:
            self.P = P
        return kinds

    def isbool(self, c, path):
        t = self.ip.leaf_ty(c, path)
        return t >= 0 and self.ip.ty[t]["k"] == "bool"

    def shift(self, t, k, memo):
        """rewrite terms over P for the boundary P + k: bytes before it are gone"""
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "elem" and t.a[0] is self.buf:
            d = sub(t.a[1], self.P)
            if isint(d):
                r = mk("undef", "past") if d.a[0] < k else self.el(d.a[0] - k)
            else:
                r = mk("undef", "index")
        elif t is self.P:
            r = add(self.P, I(-k))
        elif t.op in ("int", "sym"):
            r = t
        else:
            na = tuple(self.sh_any(x, k, memo) for x in t.a)
            r = t if na == t.a else self.ip.rebuild(t.op, na, Facts(self.ip.ty)) if t.op == "lin" else mk(t.op, *na)
            if t.op == "lin":
                r = I(t.a[0])
                for v, kk in t.a[1]:
                    r = add(r, scale(self.shift(v, k, memo), kk))
        memo[t] = r
        return r

    def sh_any(self, x, k, memo):
        if isinstance(x, Term):
            return self.shift(x, k, memo)
        if isinstance(x, tuple):
            return tuple(self.sh_any(y, k, memo) for y in x)
        return x

    def canon(self, st, k, kinds, entry):
        """abstract the state at boundary P + k: (state at boundary P, key, appended)"""
        s = entry.copy()
        memo = {}
        out = {}
        key = []
        fresh = self.fresh_facts(st)
        pre = mk("undef", "past")
        for (c, path), kd in kinds.items():
            v = self.leaf(st, (c, path))
            if kd == "rel":
                d = sub(sub(v, add(self.P, I(k))), self.base.get((c, path), ZERO))
                if not isint(d):
                    raise GiveUp("a position is %s" % show(v)[:80])
                nv = add(add(self.P, d), self.base.get((c, path), ZERO))
                key.append((c, path, d.a[0]))
            elif kd == "acc":
                a0 = self.leaf(entry, (c, path))
                suf = self.ip.suffix(self.acc(c, path), v)
                if suf is None:
                    raise GiveUp("the output is rewritten: " + show(v)[:100])
                out[(c, path)] = suf
                nv = self.acc(c, path)
            elif kd == "int":
                nv = mk("sym", "cnt%s" % (self.ip.leafid(c, path)), self.ip.leaf_ty(c, path))
                fresh.bound(nv, 0, BIG)
            else:
                nv = self.shift(v, k, memo)
                if contains(nv, lambda x: x is pre):
                    nv = pre
                key.append((c, path, nv))
            s.cells[c] = self.ip.set_leaf(s.cells[c], path, nv)
        # what is already known about the bytes to come
        ahead = []
        for x in st.f.order:
            t = self.shift(x[0], k, memo)
            if not contains(t, lambda y: y.op == "undef") and contains(t, lambda y: y.op == "elem" and y.a[0] is self.buf):
                ahead.append((t,) + x[1:])
        left = sub(mk("len", self.buf), self.P)
        lo, hi = st.f.range(add(left, I(-k)))
        if lo > 0 or hi < BIG // 2:
            ahead.append((left, max(lo, 0), hi if hi < BIG // 2 else BIG))
        for x in ahead:
            if x[1] == "ne":
                fresh.exclude(x[0], x[2])
            else:
                fresh.bound(x[0], x[1], x[2])
        key.append(("ahead", (), tuple(sorted(set((x[0],) + tuple(map(str, x[1:])) for x in ahead), key=lambda x: (x[0].id, x[1:])))))
        s.f = fresh
        return s, tuple(sorted(key, key=kid)), out

    def acc(self, c, path):
        return mk("sym", "acc%s" % self.ip.leafid(c, path), -1)

    def fresh_facts(self, st):
        f = Facts(self.ip.ty)
        # facts that do not concern the buffer stay
        for x in st.f.order:
            if not contains(x[0], lambda y: y is self.buf or y is self.P or (y.op == "sym" and str(y.a[0]).startswith(("cnt", "acc")))):
                if x[1] == "ne":
                    f.exclude(x[0], x[2])
                else:
                    f.bound(x[0], x[1], x[2])
        if self.P is not None:
            f.bound(self.P, 0, BIG)
            f.bound(sub(mk("len", self.buf), self.P), 0, BIG)
        return f

    def explore(self, fr, header, s0, body, cur):
        no = len(self.loops)
        self.loops.append((fr, header))
        self.P = None
        kinds = self.classify(s0, body, cur)
        self.kinds = kinds
        usz = self.ip.leaf_ty(*cur)
        self.P = mk("sym", "P%d" % no, usz)
        # the entry as a canonical state at P = 0: generalise the positions
        e = s0.copy()
        self.start_out = {}
        self.base = {}          # where positions start that do not start at a number
        key0 = []
        for (c, path), kd in kinds.items():
            v = self.leaf(s0, (c, path))
            if kd == "rel":
                nv = add(self.P, v)
                if not isint(v):
                    self.base[(c, path)] = v
                    v = ZERO
                key0.append((c, path, v.a[0]))
            elif kd == "acc":
                self.start_out[(c, path)] = v
                nv = self.acc(c, path)
            elif kd == "int":
                nv = mk("sym", "cnt%s" % (self.ip.leafid(c, path)), self.ip.leaf_ty(c, path))
            else:
                nv = v
                key0.append((c, path, nv))
            e.cells[c] = self.ip.set_leaf(e.cells[c], path, nv)
        e.f = self.fresh_facts(s0)
        for (c, path), kd in kinds.items():
            if kd == "int":
                e.f.bound(mk("sym", "cnt%s" % (self.ip.leafid(c, path)), self.ip.leaf_ty(c, path)), 0, BIG)
        entry = e.copy()
        key0.append(("ahead", (), ()))
        start = (self.start, tuple(sorted(key0, key=kid)))
        seen = {start: e}
        least = {start: 0}      # lower bound of the position
        work = [start]
        outs = []
        while work:
            q, key = k0 = work.pop()
            st0 = seen[k0].copy()
            st0.f.bound(self.P, least[k0], BIG)
            if len(seen) > 400:
                if self.debug:
                    for x in list(seen)[:12] + list(seen)[-12:]:
                        print(no, x[0], x[1])
                raise GiveUp("too many states")
            # the string ends here
            if self.ends(q):
                st = st0.copy()
                try:
                    self.constrain(st, (), None, True)
                    for o in body(st):
                        if o.k == "back":
                            if self.feasible(o.s):
                                if self.debug:
                                    print(key, [(show(a[0]), a[1:]) for a in o.s.f.order])
                                raise GiveUp("the loop goes on at the end of the string")
                            continue
                        if self.feasible(o.s):
                            outs.append(self.mark(o, no, q, "end", None, ()))
                except Infeasible:
                    pass
            for m, b, la in self.moves(q):
                st = st0.copy()
                try:
                    self.constrain(st, b, la, False)
                    if not self.feasible(st):
                        continue
                    self.nmoves += 1
                    done, exits = self.advance(st, body, cur, len(b))
                except Infeasible:
                    continue
                for o in exits:
                    outs.append(self.mark(o, no, q, "mid", m, b))
                for x, d in done:
                    try:
                        adv = d if self.free else len(b)
                        ns, nkey, app = self.canon(x, adv, kinds, entry)
                    except Infeasible:
                        continue
                    if m.bad:
                        self.on_bad(no, q, m, b, x)
                    else:
                        self.on_token(no, q, m, b, x, app)
                    nk = (m.to, nkey)
                    low = min(least[k0] + adv, 8)
                    if nk not in seen:
                        seen[nk] = ns
                        least[nk] = low
                        work.append(nk)
                    elif low < least[nk]:
                        least[nk] = low
                        work.append(nk)
        self.nstates = len(seen)
        return outs

    def ends(self, q):
        return True

    def mark(self, o, no, q, kind, m, b):
        i = len(self.exits)
        self.exits[i] = (no, q, kind, m, b)
        o.s.cells[("G", "x")] = mk("sym", "exit%d" % i, -1)
        return o

    def exit_of(self, s):
        g = s.cells.get(("G", "x"))
        return self.exits[int(g.a[0][4:])] if g is not None else None

    # -- to be refined
    def on_token(self, no, q, m, b, st, app):
        pass

    def on_bad(self, no, q, m, b, st):
        pass
