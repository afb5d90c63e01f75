"""C06: the constant pool."""
import itertools

from codec import Codecs, has_unk, tainted
from interp import Budget
from state import Infeasible
from strs import insts_of
from terms import *

RULE = (
    "The pool writer and the pool reader are abstractly interpreted. Histories: every sequence of up to four insertions of "
    "arbitrary entries into a new pool, the pool written, the emitted grammar read, every index looked up. Induction: an "
    "insertion into an arbitrary pool changes what is written by exactly the new entry, returns the number of its place and "
    "is remembered; one iteration of the reading loop from an arbitrary position files the entry under that position and "
    "advances by its size. Typed lookups on an arbitrary pool: each succeeds exactly for its kinds of entries. Bootstrap "
    "method lists: insertion and resolution on lists of arbitrary entries."
)
ASSUMPTIONS = [
    "entries are written and read back individually as decided by C01 and C02",
    "fewer than 2^31 entries are inserted into one pool (memory)",
    "hash maps behave as documented for keys with consistent equality and hash (C16)",
]
WIDE = ("Long", "Double")
BIG = 1 << 31


class Pool:
    def __init__(self, R, mir):
        self.R, self.mir = R, mir
        self.C = C = Codecs(mir)
        self.ip = ip = C.ip
        self.M = ip.models
        C.real_pool = True
        C.inline |= {"coffer::cp::VecCp", "coffer::cp::MapCp"}
        ip.nofail = True
        x = mir["insts"][self.fn("insert")]
        self.ety = x["locals"][2]
        self.cpw_ty = ip.ty[x["locals"][1]]["t"]
        self.cpr_ty = ip.ty[mir["insts"][self.fn("get")]["locals"][1]]["t"]
        self.variants = [v["n"] for v in ip.ty[self.ety]["v"]]

    def fn(self, name):
        return insts_of(self.mir, "pool::" + name)[0]

    def call(self, s, name, *args):
        """[(state, value)]; panics as (state, None)"""
        self.ip.steps = 0
        res = []
        for o in self.ip.run_fn(s, self.fn(name), list(args)):
            if o.k == "ret":
                res.append((o.s, self.ip.deep(o.s, o.v)))
            else:
                o.s.ev += (("panic", str(o.v)),)
                res.append((o.s, None))
        return res

    def write(self, s, cp):
        """[(state, ok?, pieces)]"""
        dst = s.alloc(EMPTY)
        res = []
        for st, v in self.call(s, "write", cp, mk("ref", dst, ())):
            if v is None:
                res.append((st, None, ()))
            else:
                d = st.cells.get(dst, EMPTY)
                res.append((st, v.a[1] == 0, d.a if d.op == "seq" else (("sp", d),)))
        return res

    def read(self, s, pieces):
        from models import to_lp

        src = s.alloc(mk("src", *[to_lp(p) for p in pieces]))
        return [(st, v, st.cells.get(src)) for st, v in self.call(s, "read", mk("ref", src, ()))]

    def size(self, f, e):
        """the number of places of an entry, if the path determines it"""
        d = mk("discr", e, len(self.variants)) if e.op != "adt" else I(e.a[1])
        w = [self.variants.index(n) for n in WIDE]
        v = f.value(d)
        if v is not None:
            return 2 if v in w else 1
        if all(f.excluded(d, x) for x in w):
            return 1
        if all(f.excluded(d, x) for x in range(len(self.variants)) if x not in w):
            return 2
        return None

    def sized(self, s, e):
        """[(state, size)]"""
        z = self.size(s.f, e)
        if z is not None:
            return [(s, z)]
        res = []
        d = mk("discr", e, len(self.variants))
        rest = s.copy()
        for n in WIDE:
            i = self.variants.index(n)
            st = s.copy()
            try:
                st.f.bound(d, i, i)
                res.append((st, 2))
            except Infeasible:
                pass
            try:
                rest.f.exclude(d, i)
            except Infeasible:
                rest = None
                break
        if rest is not None:
            res.append((rest, 1))
        return res

    def verdict(self, key, s, ok, text, *terms):
        if ok:
            self.R.good(key)
        elif tainted(s, *terms):
            self.R.undecided(key, text()[:600])
        else:
            self.R.bad(key, text()[:2000] + "\n  path: " + "; ".join("%s:%s" % (show(a[0])[:120], a[1:]) for a in s.f.order)[:1200])

    def same(self, f, a, b):
        return a is b or f.decide(self.ip.mk_eq(f, a, b)) == 1

    # ------------------------------------------------------------ histories
    def histories(self):
        ip = self.ip
        es = [mk("sym", "e%d" % i, self.ety) for i in range(3)]
        plans = [[], [0], [0, 1], [0, 0], [0, 1, 0], [0, 1, 2], [0, 1, 1], [0, 1, 2, 0], [0, 1, 2, 1]]
        for plan in plans:
            what = "history:" + ("".join("abc"[i] for i in plan) or "empty")
            try:
                self.history(what, plan, es)
            except (Budget, RecursionError) as e:
                ip.stack.clear()
                self.R.undecided(what, "%s %s" % (type(e).__name__, e))

    def history(self, what, plan, es):
        ip = self.ip
        todo = []
        for s, v in self.call(ip.new_state(), "new"):
            cp = mk("ref", s.alloc(v), ())
            todo.append((s, []))
        for i in plan:
            nxt = []
            for s, idx in todo:
                for st, v in self.call(s, "insert", cp, es[i]):
                    self.R.count("insertions")
                    if v is None:
                        self.verdict(what, st, False, lambda: "inserting an entry panics: " + str(st.ev[-1:]))
                        continue
                    nxt.append((st, idx + [v]))
            todo = nxt
        for s, idx in todo:
            # equal entries share one place
            for a in range(len(plan)):
                for b in range(a):
                    if plan[a] == plan[b]:
                        self.verdict(what + ":shared", s, self.same(s.f, idx[a], idx[b]),
                                     lambda: "inserting an equal entry again gives index %s instead of %s" % (show(idx[a]), show(idx[b])), idx[a], idx[b])
            for s1, ok, ps in self.write(s.copy(), cp):
                self.R.count("pools written")
                if not ok:
                    self.verdict(what + ":written", s1, False, lambda: "a pool of %d entries is refused or panics" % len(plan))
                    continue
                for s2, v, left in self.read(s1.copy(), ps):
                    self.R.count("pools read")
                    if v is None or v.op != "adt" or v.a[1] != 0:
                        self.verdict(what + ":read", s2, False, lambda: "the written pool is not readable: %s from %s" % (
                            show(v) if v else "panic", ", ".join(show_piece(p) for p in ps)), v)
                        continue
                    if left is not None and s2.f.value(seq_len(left)) != 0:
                        self.verdict(what + ":left", s2, False, lambda: "the reader does not consume the written pool: %s is left" % show(left), left)
                        continue
                    self.lookups(what, s2, v.a[2], plan, idx, es, ps)

    def lookups(self, what, s, pool, plan, idx, es, ps):
        for i, n in zip(plan, idx):
            st0 = s.copy()
            cpr = mk("ref", st0.alloc(pool), ())
            for st, v in self.call(st0, "get", cpr, n):
                ok = v is not None and v.op == "adt" and v.a[1] == 1 and self.same(st.f, v.a[2], es[i])
                self.verdict(what + ":lookup", st, ok, lambda: "entry %s was given index %s, which denotes %s in the written pool %s" % (
                    "abc"[i], show(n), show(v) if v else "panic", ", ".join(show_piece(p) for p in ps)[:500]), v)
        # places: 1, then by size; everything else is vacant
        for st, starts, end in self.places(s, plan, es, idx):
            for k in list(range(0, end + 2)) + [65535]:
                s3 = st.copy()
                cpr = mk("ref", s3.alloc(pool), ())
                for s4, v in self.call(s3, "get", cpr, I(k)):
                    some = v is not None and v.op == "adt" and v.a[1] == 1
                    if k in starts:
                        self.verdict(what + ":place", s4, some and self.same(s4.f, v.a[2], starts[k]),
                                     lambda: "index %d denotes %s" % (k, show(v) if v else "panic"), v)
                    else:
                        self.verdict(what + ":vacant", s4, v is not None and not some,
                                     lambda: "index %d, which denotes no constant, gives %s" % (k, show(v) if v else "panic"), v)

    def places(self, s, plan, es, idx):
        """[(state, {place: entry}, end)] with sizes decided, following the order of first insertion"""
        order = []
        for i, n in zip(plan, idx):
            if not any(n is m or s.f.decide(self.ip.mk_eq(s.f, n, m)) == 1 for _, m in order):
                order.append((es[i], n))
        cur = [(s.copy(), {}, 1)]
        for e, _ in order:
            nxt = []
            for st, starts, end in cur:
                for s2, z in self.sized(st, e):
                    nxt.append((s2, {**starts, end: e}, end + z))
            cur = nxt
        return cur

    # ------------------------------------------------------------ induction: writer
    def inductive_writer(self):
        ip = self.ip
        s = ip.new_state()
        S = mk("sym", "pool", self.cpw_ty)
        cell = s.alloc(S)
        cp = mk("ref", cell, ())
        v, w = mk("sym", "v", self.ety), mk("sym", "w", self.ety)
        base = self.shape(s, S, "writer:arbitrary pool")
        if base is None:
            return
        n0, l0 = base
        s.f.bound(n0, 1, BIG)
        for s1, i1 in self.call(s.copy(), "insert", cp, v):
            self.R.count("insertion paths")
            if i1 is None:
                self.verdict("writer:insert", s1, False, lambda: "inserting panics: " + str(s1.ev[-1:]))
                continue
            S1 = s1.cells[cell]
            sh = self.shape(s1, ip.deep(s1, S1), "writer:after insertion")
            if sh is None:
                continue
            n1, l1 = sh
            if self.same(s1.f, n1, n0) and self.grown(l0, l1) == ():
                # remembered
                self.verdict("writer:remembered", s1, self.remembered(i1, v),
                             lambda: "a pool that already has the entry gives index %s" % show(i1), i1)
            else:
                g = self.grown(l0, l1)
                self.verdict("writer:appended", s1, g is not None and len(g) == 1 and self.is_entry(g[0], v),
                             lambda: "inserting an entry changes the written entries from %s to %s" % (show(l0), show(l1)), l1)
                ok = self.low16(s1.f, i1, n0)
                self.verdict("writer:index", s1, ok, lambda: "the new entry, at place %s, is given index %s" % (show(n0), show(i1)), i1)
                for s2, z in self.sized(s1, v):
                    self.verdict("writer:count", s2, s2.f.value(sub(n1, n0)) == z,
                                 lambda: "an entry of %d places changes the count from %s to %s" % (z, show(n0), show(n1)), n1)
            # inserted again, also after something else
            for s2, i2 in self.call(s1.copy(), "insert", cp, v):
                self.again("writer:again", s2, i1, i2, n1, l1, cell)
            s1 = s1.copy()
            s1.f.bound(ip.mk_eq(s1.f, v, w), 0, 0)
            for s2, iw in self.call(s1, "insert", cp, w):
                if iw is None:
                    continue
                sh2 = self.shape(s2, ip.deep(s2, s2.cells[cell]), "writer:after two")
                if sh2 is None:
                    continue
                for s3, i3 in self.call(s2.copy(), "insert", cp, v):
                    self.again("writer:again later", s3, i1, i3, *sh2, cell)

    def again(self, key, s, i1, i2, n, l, cell):
        if i2 is None:
            return self.verdict(key, s, False, lambda: "inserting panics")
        self.verdict(key, s, self.same(s.f, i1, i2),
                     lambda: "inserting an equal entry again gives index %s instead of %s" % (show(i2), show(i1)), i1, i2)
        sh = self.shape(s, self.ip.deep(s, s.cells[cell]), key)
        if sh:
            self.verdict(key + ":unchanged", s, self.same(s.f, sh[0], n) and self.grown(l, sh[1]) == (),
                         lambda: "inserting an equal entry again changes the written pool from %s to %s" % (show(l), show(sh[1])), sh[1])

    def low16(self, f, i, n):
        if i is n:
            return True
        a, b = f.wrap(16, False, i), f.wrap(16, False, n)
        if a is b:
            return True
        # an index that is not the low half is fine once the pool can no longer be written
        return f.decide(self.ip.mk_eq(f, a, b)) == 1 or f.range(n)[0] > 65535

    def remembered(self, i, v):
        """the index is what the pool has stored under this entry"""
        x = i
        while x.op in ("wrap", "bits", "cast") and isinstance(x.a[-1], Term):
            x = x.a[-1]
        return contains(i, lambda y: y.op == "mget" and y.a[1] is v)

    def is_entry(self, p, v):
        return p[0] == "nt" and p[2] is v or p[0] == "e" and p[1] is v

    def grown(self, l0, l1):
        """pieces by which the written list grew, or None"""
        a, b = l0.a, l1.a
        if b[: len(a)] == a:
            return b[len(a):]
        return None

    def shape(self, s, val, key):
        """what a pool would be written as: (count, entries) with the refusal of large counts checked"""
        ip = self.ip
        res = self.write(s.copy(), mk("ref", ("O", val), ()))
        n = None
        for st, ok, ps in res:
            if ok:
                if not ps or ps[0][0] not in ("be", "k"):
                    self.R.undecided(key + ":shape", "not a count followed by entries: " + ", ".join(show_piece(p) for p in ps)[:300])
                    return None
                if ps[0][0] == "k":
                    c = I(int.from_bytes(ps[0][1][:2], "big"))
                    ps = ((("k", ps[0][1][2:]),) if len(ps[0][1]) > 2 else ()) + ps[1:]
                    ps = (None,) + ps
                else:
                    c = ps[0][2]
                while c.op == "bits" and c.a[1] == 0 and st.f.range(c.a[0])[0] >= 0:
                    c = c.a[0]
                if c.op == "wrap":
                    c = c.a[-1]
                n = (c, self.written(ps[1:]))
                hi = st.f.range(c)[1]
                self.verdict(key + ":too many", st, hi <= 65535,
                             lambda: "a pool of %s places is written with a count cut to 16 bits" % show(c), c)
        if n is None:
            self.R.undecided(key + ":shape", "no way to write the pool")
            return None
        for st, ok, ps in res:
            if ok is None:
                self.verdict(key + ":panic", st, st.f.range(n[0])[0] > BIG, lambda: "writing the pool panics: " + str(st.ev[-1:]))
            elif not ok:
                self.verdict(key + ":refused", st, st.f.range(n[0])[0] > 65535,
                             lambda: "a pool whose count fits is refused (count in %s)" % (st.f.range(n[0]),))
        return n

    def written(self, ps):
        """the list of written entries: the loop over an arbitrary list stands for the list"""
        out = []
        for p in ps:
            if p[0] in ("loop", "lp"):
                xs = [q for g, alt in p[3] for q in alt]
                if len(p[3]) == 1 and len(xs) == 1 and xs[0][0] == "nt" and xs[0][2].op == "elem" and xs[0][2].a[1].op == "it":
                    b = xs[0][2].a[0]
                    if b.op == "seq":
                        out += [(q if q[0] != "e" else ("nt", xs[0][1], q[1])) for q in b.a]
                    else:
                        out.append(("sp", b))
                    continue
            out.append(p)
        return mk("seq", *out)

    # ------------------------------------------------------------ induction: reader
    def inductive_reader(self):
        ip = self.ip
        ip.loops.clear()
        s = ip.new_state()
        src = s.alloc(EMPTY)
        outs = self.call(s, "read", mk("ref", src, ()))
        self.R.count("reader paths", len(outs))
        found = 0
        for rec in list(ip.loops.values()):
            r = self.loop_step(rec)
            if r is not None:
                found += 1
        if not found:
            self.R.undecided("reader:step", "the reading loop was not recognised")

    def loop_step(self, rec):
        """an iteration that adds entry v under key k: k is a loop variable that starts at 1 and grows by the size of v"""
        ip = self.ip
        res = None
        lv = {ip.leafid(c, p): (c, p, k) for (c, p), k in rec["leaves"].items()}
        for (c, path), kind in rec["leaves"].items():
            if kind != "acc":
                continue
            v0 = ip.leaf(rec["start"].cells[c], path)
            for b in rec["backs"]:
                ps = ip.suffix(v0, ip.leaf(b.cells[c], path))
                if not ps or len(ps) != 1 or ps[0][0] != "e" or ps[0][1].op != "tup":
                    continue
                k, e = ps[0][1].a
                e = ip.deep(b, e)
                if ip.ty.strip(self.ety) is None or e.op not in ("rd", "adt", "sym", "fld", "app"):
                    continue
                res = True
                self.R.count("reading steps")
                if k.op != "phi" or k.a[1] not in lv:
                    self.R.undecided("reader:step", "the key %s is not a loop variable" % show(k)[:200])
                    continue
                c2, p2, _ = lv[k.a[1]]
                start = rec["init"][(c2, p2)]
                self.verdict("reader:first", b, rec["entry"].f.value(start) == 1,
                             lambda: "the first entry gets index %s" % show(start), start)
                nk = ip.leaf(b.cells[c2], p2)
                for s2, z in self.sized(b, e):
                    d = sub(nk, k)
                    ok = s2.f.value(d) == z or self.stops(rec, s2, nk, k, z)
                    self.verdict("reader:step", s2, ok,
                                 lambda: "after an entry of %d places at index %s the next index is %s" % (z, show(k), show(nk)), nk)
        return res

    def stops(self, rec, s, nk, k, z):
        """the next index does not fit into 16 bits: there is no further entry"""
        return s.f.range(add(k, I(z)))[1] > 65535 and s.f.range(nk)[0] == 65535 and s.f.range(add(k, I(z)))[0] > 65535

    # ------------------------------------------------------------ typed insertions
    def typed_insertions(self):
        """what a typed insertion is given is what the lookup of that kind finds under the index it returns"""
        C, ip = self.C, self.ip
        C.real_pool = False
        for ins, look in INSERTIONS.items():
            key = "typed insertion:" + ins
            fi = insts_of(self.mir, "pool::" + ins)
            fl = insts_of(self.mir, "pool::" + look)
            if not fi or not fl:
                self.R.undecided(key, "no such operation")
                continue
            s = ip.new_state()
            x = mk("sym", "x", self.mir["insts"][fi[0]]["locals"][2])
            try:
                for st, i in self.call(s, ins, mk("ref", s.alloc(mk("sym", "pool", self.cpw_ty)), ()), x):
                    self.R.count("typed insertion paths")
                    if i is None:
                        self.verdict(key + ":panic", st, False, lambda: "inserting a constant panics: " + str(st.ev[-1:]))
                        continue
                    for s2, v in self.call(st, look, mk("ref", st.alloc(mk("sym", "cp", self.cpr_ty)), ()), i):
                        if v is None or v.op != "adt":
                            self.R.undecided(key, "lookup not determined: " + show(v)[:200] if v is not None else "panics")
                        elif v.a[1] != 1:
                            self.verdict(key + ":lost", s2, False, lambda: "the inserted constant is not found under its index %s" % show(i), i)
                        else:
                            self.verdict(key + ":value", s2, self.same(s2.f, v.a[2], x),
                                         lambda: "inserting %s gives an index that denotes %s" % (show(x), show(v.a[2])), v)
            except (IndexError, Budget, RecursionError) as e:
                ip.stack.clear()
                self.R.undecided(key, "%s %s" % (type(e).__name__, e))
        C.real_pool = True

    # ------------------------------------------------------------ typed lookups
    def typed(self):
        C, ip = self.C, self.ip
        C.real_pool = False
        for name, fn in LOOKUPS.items():
            s = ip.new_state()
            i = mk("sym", "i", C.tyid("u16"))
            pool = mk("ref", s.alloc(mk("sym", "pool", self.cpr_ty)), ())
            try:
                outs = self.call(s, name, pool, i)
            except (IndexError, Budget, RecursionError) as e:
                ip.stack.clear()
                self.R.undecided("lookup:" + name, "%s %s" % (type(e).__name__, e))
                continue
            n = 0
            for st, v in outs:
                self.R.count("lookup paths")
                key = "lookup:" + name
                if v is None:
                    self.verdict(key + ":panic", st, False, lambda: "looking up a constant panics: " + str(st.ev[-1:]))
                    continue
                if v.op != "adt":
                    self.R.undecided(key, "result not determined: " + show(v)[:200])
                    continue
                sp = Spec(self, st)
                try:
                    want = fn(sp, i)
                    verdict = "some"
                except Nope as e:
                    want, verdict = None, "none"
                except Maybe as e:
                    want, verdict = None, "open:" + str(e)
                except Unk as e:
                    self.R.undecided(key, str(e))
                    continue
                if v.a[1] == 1:
                    n += 1
                    if verdict == "some":
                        self.verdict(key + ":value", st, self.same(st.f, v.a[2], want),
                                     lambda: "the lookup gives %s instead of %s" % (show(v.a[2]), show(want)), v)
                    else:
                        self.verdict(key + ":accepts", st, False,
                                     lambda: "the lookup gives %s for an entry of another kind (%s)" % (show(v.a[2]), verdict), v)
                else:
                    if "nocp" in st.tags or "parse" in st.tags:
                        self.R.good(key)
                    else:
                        self.verdict(key + ":refuses", st, verdict == "none",
                                     lambda: "the lookup fails although the entry is of the right kind", v)
            if not n:
                self.R.undecided("lookup:" + name, "never succeeds")
        C.real_pool = True


    # ------------------------------------------------------------ bootstrap methods
    def bsm_insert(self):
        ip = self.ip
        bty = self.mir["insts"][self.fn("insert_bsm")]["locals"][2]
        fs = [i for i, (n, t) in enumerate(ip.ty[self.cpw_ty]["v"][0]["f"]) if ip.ty[t].get("path") == "std::vec::Vec" and ip.ty.elem(t) == bty]
        if len(fs) != 1:
            self.R.undecided("bsm:insert", "no list of bootstrap methods in the pool writer")
            return
        fi, ft = fs[0], ip.ty[self.cpw_ty]["v"][0]["f"][fs[0]][1]
        s = ip.new_state()
        S = mk("sym", "pool", self.cpw_ty)
        L = mk("fld", S, None, fi, ft)
        b = mk("sym", "b", bty)
        cell = s.alloc(S)
        for st, i in self.call(s, "insert_bsm", mk("ref", cell, ()), b):
            self.R.count("bootstrap method insertions")
            key = "bsm:insert"
            if i is None:
                self.verdict(key + ":panic", st, False, lambda: "inserting a bootstrap method panics")
                continue
            S1 = ip.deep(st, st.cells[cell])
            L1 = S1.a[2 + fi] if S1.op == "adt" else mk("fld", S1, None, fi, ft) if S1 is S else unk("list")
            if L1 is L:
                its = [a[0] for a in st.f.order if a[0].op == "eq" and a[1:] == (1, 1)]
                ok = False
                for e in its:
                    xs = [x for x in e.a if x.op == "elem" and x.a[0] is L]
                    if xs and b in e.a and self.low16(st.f, i, xs[0].a[1]):
                        ok = True
                self.verdict(key + ":shared", st, ok, lambda: "a bootstrap method that is not appended is given index %s" % show(i), i)
            else:
                ok = L1.op == "seq" and L1.a == (("sp", L), ("e", b))
                self.verdict(key + ":appended", st, ok, lambda: "inserting a bootstrap method changes the list to %s" % show(L1), L1)
                self.verdict(key + ":index", st, self.low16(st.f, i, seq_len(L)),
                             lambda: "the bootstrap method appended at %s is given index %s" % (show(seq_len(L)), show(i)), i)

    def bsm_resolve(self):
        ip = self.ip
        x = self.mir["insts"][self.fn("later")]
        dty = x["locals"][3]
        bty = ip.ty.elem(ip.ty[self.mir["insts"][self.fn("resolve")]["locals"][2]]["t"])
        for nb in range(4):
            for nr in range(4):
                for vals in itertools.product([*range(nb + 1), 65535], repeat=nr):
                    self.resolution(nb, nr, dty, bty, [I(v) for v in vals])
        # indices that need more than one byte
        for vals in ([256], [257], [1, 256], [258], [129, 130]):
            self.resolution(258, len(vals), dty, bty, [I(v) for v in vals])

    def resolution(self, nb, nr, dty, bty, ixs):
        ip = self.ip
        key = "bsm:resolve %d references, %d methods" % (nr, nb)
        s = ip.new_state()
        todo = [(st, v.a[2]) for st, v, _ in self.read(s, (("k", b"\0\1"),)) if v is not None and v.op == "adt" and v.a[1] == 0]
        for st, pool in todo:
            cp = mk("ref", st.alloc(pool), ())
            cells = [st.alloc(mk("cell0")) for _ in range(nr)]
            bs = [mk("sym", "b%d" % k, bty) for k in range(nb)]
            cur = [st]
            for k in range(nr):
                fs = [mk("ref", cells[k], ()) if n == "bsm" else mk("sym", n, t) for n, t in ip.ty[dty]["v"][0]["f"]]
                cur = [s2 for st2 in cur for s2, v in self.call(st2, "later", cp, ixs[k], ip.adt(dty, 0, *fs)) if v is not None]
            lst = mk("seq", *[("e", b) for b in bs])
            for st2 in cur:
                for s3, v in self.call(st2, "resolve", cp, mk("ref", ("O", lst), ())):
                    self.R.count("resolutions")
                    if v is None:
                        self.verdict(key + ":panic", s3, False, lambda: "resolving panics: " + str(s3.ev[-1:]))
                        continue
                    if v.op != "adt":
                        self.R.undecided(key, "result not determined")
                        continue
                    inr = [s3.f.range(i) for i in ixs]
                    if v.a[1] == 0:
                        for i, c in zip(ixs, cells):
                            j = s3.f.value(i)
                            got = s3.cells.get(c)
                            ok = j is not None and j < nb and got is ip.mk_app("cell_of", bs[j], -1)
                            self.verdict(key + ":cell", s3, ok, lambda: "a reference to bootstrap method %s is resolved to %s" % (
                                show(i) if j is None else j, show(got)), got)
                        if not ixs:
                            self.R.good(key)
                    else:
                        self.verdict(key + ":refused", s3, any(lo >= nb or all(s3.f.excluded(i, j) for j in range(nb)) for i, (lo, hi) in zip(ixs, inr)),
                                     lambda: "references to existing bootstrap methods are refused", v)


class Nope(Exception):
    pass


class Maybe(Exception):
    pass


class Unk(Exception):
    pass


class Spec:
    """what an index denotes, read off the facts of a path"""

    def __init__(self, P, s):
        self.P, self.s, self.f, self.ip, self.C = P, s, s.f, P.ip, P.C

    def entry(self, i, *kinds):
        """fields of the entry at i if it is of one of these kinds"""
        P = self.P
        e = self.ip.mk_app("cp", i, P.ety)
        d = mk("discr", e, len(P.variants))
        v = self.f.value(d)
        want = [P.variants.index(k) for k in kinds]
        if v is None:
            if all(self.f.excluded(d, k) for k in want):
                raise Nope
            raise Maybe("kind of entry undetermined")
        if v not in want:
            raise Nope
        fs = self.ip.ty[P.ety]["v"][v]["f"]
        return P.variants[v], [mk("fld", e, v, j, t) for j, (n, t) in enumerate(fs)]

    def wtf8(self, i):
        return self.entry(i, "WTF8")[1][0]

    def named(self, kind):
        return lambda i: self.wtf8(self.entry(i, kind)[1][0])

    def nat(self, i):
        a, b = self.entry(i, "NameAndType")[1]
        n = self.wtf8(a)
        return n, self.parse(self.wtf8(b))

    def parse(self, x):
        return self.ip.mk_app("parse", x, self.tyof("coffer::ty::Type"))

    def tyof(self, path):
        n = "::" + path.split("::")[-1]
        for i, t in enumerate(self.ip.ty.t):
            if t["k"] == "adt" and t["crate"] == "coffer" and t["path"].endswith(n):
                return i
        raise Unk("no type " + path)

    def adt(self, path, variant, *fields, **named):
        ti = self.tyof(path)
        vs = self.ip.ty[ti]["v"]
        vi = 0 if variant is None else [v["n"] for v in vs].index(variant)
        if named:
            fields = [named[n] for n, _ in vs[vi]["f"]]
        return self.ip.adt(ti, vi, *fields)

    def member(self, i):
        k, (o, nt) = self.entry(i, "Field", "Method", "InterfaceMethod")
        owner = self.wtf8(self.entry(o, "Class")[1][0])
        n, t = self.nat(nt)
        return self.adt("coffer::loadable::MemberRef", None, owner=owner, name=n, descriptor=t, itfs=I(1 if k == "InterfaceMethod" else 0))

    KINDS = "GetField GetStatic PutField PutStatic InvokeVirtual InvokeStatic InvokeSpecial NewInvokeSpecial InvokeInterface".split()

    def handle(self, i):
        _, (k, m) = self.entry(i, "MethodHandle")
        r = self.f.value(k)
        lo, hi = self.f.range(k)
        if r is None:
            if hi < 1 or lo > 9 or all(self.f.excluded(k, j) for j in range(1, 10)):
                raise Nope
            mem = self.member(m)
            raise Maybe("kind of handle undetermined")
        if not 1 <= r <= 9:
            raise Nope
        kind = self.adt("coffer::loadable::MethodHandleKind", self.KINDS[r - 1])
        return self.adt("coffer::loadable::MethodHandle", None, kind=kind, member=self.member(m))

    def constant(self, i):
        c = lambda v, x: self.adt("coffer::loadable::Constant", v, x)
        for kind, v in (("Int", "I32"), ("Long", "I64"), ("Float", "F32"), ("Double", "F64")):
            try:
                return c(v, self.entry(i, kind)[1][0])
            except Nope:
                pass
        for kind, v in (("String", "String"), ("Class", "Class"), ("MethodType", "MethodType")):
            try:
                j = self.entry(i, kind)[1][0]
            except Nope:
                continue
            t = self.wtf8(j)
            return c(v, self.parse(t) if v == "MethodType" else t)
        try:
            self.entry(i, "MethodHandle")
        except Nope:
            return c("Member", self.member(i))
        return c("MethodHandle", self.handle(i))

    def float_(self, kind):
        def g(i):
            x = self.entry(i, kind)[1][0]
            t = x.a[-1]
            if self.ip.ty[t]["k"] == "adt":
                return mk("fld", x, None, 0, self.ip.ty[t]["v"][0]["f"][0][1])
            return x

        return g

    def dyn(self, kind):
        def g(i):
            b, nt = self.entry(i, kind)[1]
            n, t = self.nat(nt)
            return self.adt("coffer::dynamic::Dynamic", None, bsm=self.ip.mk_app("cell_of", self.ip.mk_app("bsm_at", b, -1), -1), name=n, descriptor=t)

        return g


LOOKUPS = {
    "read_int": lambda p, i: p.entry(i, "Int")[1][0],
    "read_long": lambda p, i: p.entry(i, "Long")[1][0],
    "read_float": lambda p, i: p.float_("Float")(i),
    "read_double": lambda p, i: p.float_("Double")(i),
    "read_wtf8": lambda p, i: p.wtf8(i),
    "read_class": lambda p, i: p.named("Class")(i),
    "read_module": lambda p, i: p.named("Module")(i),
    "read_package": lambda p, i: p.named("Package")(i),
    "read_string": lambda p, i: p.named("String")(i),
    "read_nameandtype": lambda p, i: mk("tup", *p.nat(i)),
    "read_constant": lambda p, i: p.constant(i),
    "read_member": lambda p, i: p.member(i),
    "read_method_handle": lambda p, i: p.handle(i),
    "read_dynamic": lambda p, i: p.dyn("Dynamic")(i),
    "read_invokedynamic": lambda p, i: p.dyn("InvokeDynamic")(i),
}


INSERTIONS = {
    "insert_int": "read_int", "insert_long": "read_long", "insert_float": "read_float", "insert_double": "read_double",
    "insert_wtf8": "read_wtf8", "insert_class": "read_class", "insert_package": "read_package",
    "insert_module_str": "read_module", "insert_package_str": "read_package", "insert_class_str": "read_class",
    "insert_string_str": "read_string",
}


def run(R, mir):
    P = Pool(R, mir)
    P.histories()
    P.inductive_writer()
    P.inductive_reader()
    P.typed()
    P.typed_insertions()
    P.bsm_insert()
    P.bsm_resolve()
    R.floor("insertions", 20)
    R.floor("pools read", 20)
    R.floor("insertion paths", 3)
    R.floor("lookup paths", 60)
    R.floor("typed insertion paths", 11)
