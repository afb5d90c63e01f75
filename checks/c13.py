"""C13: a failing source, sink or part makes the whole operation fail."""
from codec import Codecs, NoSource, tainted
from interp import Budget, Out
from terms import *
import c11

RULE = (
    "Every reader and writer is abstractly interpreted with a source, sink, constant pool and parts that may fail at every "
    "single operation (each call of read or write, each nested structure, each lookup, each text to parse forks into success "
    "and failure; a single read or write call may also be short). Every path on which something failed has to return an error. "
    "An obligation is one path with a failure. Every attribute that the writer produces is also read with one byte more than "
    "it needs: it has to be refused, unless that byte is part of the value."
)
ASSUMPTIONS = [
    "foreign library calls behave as documented; read_exact and write_all fail if they cannot transfer everything",
    "the fallbacks within the typed lookups of the pool are decided by C06",
]
FAIL = ("io", "eof", "nterr", "parse", "nocp", "nocatch", "short")


class Errors(c11.NoPanic):
    def __init__(self, R, mir):
        super().__init__(R, mir)
        self.ip.atoms.insert(0, self.a_short)

    def a_short(self, ip, s, f, a, dti, site):
        """a single read or write may transfer less than asked for"""
        tr = (f.get("trait") or f.get("rtrait") or "").split("<")[0]
        name = f.get("name") or f.get("rname")
        if (tr, name) not in (("std::io::Write", "write"), ("std::io::Read", "read")) or s.ctx:
            return None
        M = ip.models
        n = seq_len(M.val(s, a[1]))
        if s.f.value(n) == 0:
            return None
        bad = s.copy()
        bad.tags += ("short",)
        err = s.copy()
        err.tags += ("io",)
        if name == "read":
            for st in (s, bad):
                ip.store(st, M.loc(st, a[1]), mk("sym", "short read %d" % st.fresh(), -1))
        k = mk("rd", "short:%d" % s.fresh(), 8, M.ty_usize())
        return M.outs((s, M.ok(dti, n)), (bad, M.ok(dti, k)), (err, M.err(dti, mk("opaque", "io::Error"))))

    def judge(self, name, outs):
        R = self.R
        n = 0
        for o in outs:
            bad = [t for t in o.s.tags if t in FAIL]
            loops = [e for e in o.s.ev if e[0] == "loopfail" and set(e[2]) & set(FAIL)]
            if not bad and loops:
                if o.k != "panic" and o.v.op == "adt" and o.v.a[1] == 0:
                    tags = sorted({t for e in loops for t in e[2]} & set(FAIL))
                    text = "succeeds although something failed in an iteration of a loop that went on (%s)" % ", ".join(tags)
                    # the loop may have remembered the failure
                    us = {(e[1], x) for e in loops for x in e[3]}
                    if tainted(o.s, o.v) or any(contains(k[0], lambda y: y.op == "phi" and y.a[:2] in us) for k in o.s.f.order):
                        R.undecided("%s: %s" % (name, tags[0]), text)
                    else:
                        R.bad("swallowed:%s:%s" % (name, tags[0]), text)
                continue
            if not bad or o.k == "panic":
                continue
            if o.v.op != "adt":
                R.undecided(name, "result not determined: " + show(o.v)[:150])
                continue
            if o.v.a[1] == 0:
                text = "succeeds although something failed (%s); %s" % (
                    ", ".join(bad), "; ".join("%s:%s" % (show(a[0])[:120], a[1:]) for a in o.s.f.order[-6:]))
                if tainted(o.s, o.v):
                    R.undecided("%s: %s" % (name, bad[0]), text[:300])
                else:
                    R.bad("swallowed:%s:%s" % (name, bad[0]), text)
            else:
                n += 1
        if n:
            R.good(name, n)

    def sites(self, name):
        self.ip.obl.clear()

    def writers(self):
        C, R, ip = self.C, self.R, self.ip
        for k in sorted(C.index):
            for i in C.index[k].get("write_to", ())[:1]:
                C.root = i
                x = self.mir["insts"][i]
                if self.run_one("write %s as %s" % (k[1], k[0]), lambda: C.run_writer(ip.new_state(), i, mk("sym", "self", x["self"]))):
                    R.count("writers")
        R.floor("writers", 60)


def leftover(R, mir):
    """an attribute with more content than it needs is refused (or the value has all of it)"""
    C = Codecs(mir)
    ip = C.ip
    ip.nofail = True
    ip.assume_lengths = True
    extra = mk("sym", "extra", -1)
    for k in sorted(C.index):
        d = C.index[k]
        if "Attr" not in k[1].split("::")[-1] or "write_to" not in d or "read_from" not in d:
            continue
        wi, ri = d["write_to"][0], d["read_from"][0]
        ti = mir["insts"][wi]["self"]
        val = mk("sym", "self", ti)
        ip.steps, ip.max_steps = 0, 3000000
        try:
            outs = C.run_writer(ip.new_state(), wi, val)
        except Exception as e:
            ip.stack.clear()
            R.undecided("leftover:" + k[1], "%s %s" % (type(e).__name__, e))
            continue
        for o in outs:
            if o.k != "ret" or o.v.op != "adt" or o.v.a[1] != 0:
                continue
            dv = o.s.f.value(mk("discr", val, len(C.ty[ti]["v"])))
            var = C.ty[ti]["v"][dv] if dv is not None else None
            if var and any(C.ty.path(x).endswith("::RawAttribute") for _, x in var["f"]):
                continue  # holds whatever the attribute holds
            ip.steps, ip.max_steps = 0, 400000
            what = "leftover:%s:%s" % (k[1], var["n"] if var else "*")
            try:
                longer_attribute(R, C, o, ri, what, extra)
            except Exception as e:
                ip.stack.clear()
                R.undecided(what, "%s %s" % (type(e).__name__, e))


def longer_attribute(R, C, o, ri, what, extra):
    ip, ps = C.ip, o.pieces
    n = ZERO
    for p in ps[2:]:
        n = add(n, piece_len(p))
    if len(ps) < 2 or not length_piece(o.s.f, ps[1], n):
        R.undecided(what, "no length: " + ", ".join(show_piece(p) for p in ps)[:200])
        return
    st = o.s.copy()
    st.f.bound(n, 0, 1 << 31)
    R.count("attributes")
    for r in C.run_reader(st, ri, (ps[0], ("be", 4, add(n, ONE))) + tuple(ps[2:]) + (("be", 1, extra),)):
        if r.k == "panic":
            continue  # C11
        if r.v.op != "adt" or tainted(r.s, r.v):
            R.undecided(what, "not determined: " + show(r.v)[:200])
        elif r.v.a[1] != 0 or contains(ip.deep(r.s, r.v), lambda x: x is extra):
            R.good(what)
        else:
            R.bad(what, "an attribute with a byte left over is read as " + show(ip.deep(r.s, r.v))[:300])


def length_piece(f, p, n):
    if p[0] == "be":
        return p[1] == 4 and f.value(sub(p[2], n)) == 0
    return p[0] == "k" and len(p[1]) == 4 and f.value(sub(I(int.from_bytes(p[1], "big")), n)) == 0


def run(R, mir):
    E = Errors(R, mir)
    E.readers()
    E.writers()
    leftover(R, mir)
