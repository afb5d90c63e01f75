"""Codec summaries and their composition: what the writer of a structure emits,
fed to the reader of the same structure."""
import re
from terms import *
from state import *
from interp import Interp, Out, APP_LAWS

CPR = "ConstantPoolReader"
CPW = "ConstantPoolWriter"
INLINE = ("coffer::helper::",)


def tkey(ty, i):
    return re.sub(r"'\w+ ?,? ?|<'_>", "", ty.s(i))


def law_inv(name):
    def h(ip, x, *ti):
        if x.op == "app" and x.a[0] == name:
            return x.a[1]
        return None

    return h


APP_LAWS["lossy"] = lambda ip, x, *ti: x if x.op == "app" and x.a[0] == "display" else None
for a, b in (("label_at", "off"), ("catch_at", "catchidx"), ("cell_of", "cell_val"), ("cell_val", "cell_of"),
             ("demutf8", "mutf8"), ("fofbits", "fbits"), ("fbits", "fofbits"), ("bsm_at", "bsmidx"),
             ("parse", "display")):
    APP_LAWS[a] = law_inv(b)


class Codecs:
    def __init__(self, mir, nts=True, **kw):
        self.mir = mir
        self.ip = Interp(mir, **kw)
        self.ty = self.ip.ty
        OPAQUE.clear()
        _UNK.clear()
        OPAQUE.update(i for i, x in enumerate(mir["types"]) if x["k"] in ("adt", "tuple", "closure"))
        self.ip.models.nt_expand = self.nt_expand
        self.ip.atoms += [self.a_once, self.a_cp, self.a_nt, self.a_text]
        self.nts = nts
        ip, M = self.ip, self.ip.models
        self.real_labels = False
        self.lookups_nt = False  # typed pool lookups are nonterminals: some value of their type, or nothing
        self.open_cells = set()
        self.root = None
        self.real_pool = False  # interpret the pool itself instead of using its laws
        self.inline = set()  # types whose codecs are interpreted rather than taken as nonterminals
        self.opaque_text = {
            "write_type": self.write_type,
            "modified_utf8_to_string": self.demutf8,
            "string_to_modified_utf8": lambda s, f, a, dti: M.ret(
                s, ip.mk_app("mutf8", ip.deep(s, M.val(s, a[0])), -1)
            ),
            "parse_type": lambda s, f, a, dti: self.parse(s, ip.deep(s, M.val(s, a[0])), dti),
            "to_string_lossy": lambda s, f, a, dti: M.ret(
                s, ip.mk_app("lossy", ip.deep(s, M.val(s, a[0])), -1)
            ),
        }
        self._sne = {}
        self.ip.field_dontcare = self.field_dontcare
        self.ty.static_ne = self.static_ne
        self.index = {}
        for i, x in enumerate(mir["insts"]):
            tr = (x.get("trait") or "").split("::")[-1].split("<")[0]
            if tr in ("ReadWrite", "ConstantPoolReadWrite") and x.get("name") in ("read_from", "write_to"):
                self.index.setdefault((tr, tkey(self.ty, x["self"])), {}).setdefault(x["name"], []).append(i)

    def static_ne(self, key):
        """a dynamically computed *constant* has a field descriptor (documented on Dynamic)"""
        r = self._sne.get(key)
        if r is None:
            r = frozenset()
            d = key.a[0]  # the descriptor
            if d.op == "fld" and d.a[0].op == "fld":
                dyn, own = d.a[0], d.a[0].a[0]
                try:
                    td = self.ty[dyn.a[-1]]
                    to = self.ty[own.a[-1]]
                except (TypeError, IndexError):
                    td = to = None
                if (
                    to is not None and td["k"] == "adt" and td["path"].endswith("::Dynamic")
                    and to["k"] == "adt" and to["path"].endswith("::OrDynamic")
                ):
                    vs = self.ty[d.a[-1]].get("v", [])
                    r = frozenset(i for i, v in enumerate(vs) if v["n"] == "Method")
            self._sne[key] = r
        return r

    def field_dontcare(self, f, ti, v, i, y):
        """canonical form: only method references carry the interface flag"""
        ty = self.ty[ti]
        if ty["path"].endswith("::MemberRef") and ty["v"][0]["f"][i][0] == "itfs":
            for j, (n, dt) in enumerate(ty["v"][0]["f"]):
                if n == "descriptor":
                    vs = self.ty[dt]["v"]
                    mi = [k for k, x in enumerate(vs) if x["n"] == "Method"][0]
                    return f.excluded(mk("discr", mk("fld", y, None, j, dt), len(vs)), mi)
        return False

    def flag_mask(self, ti):
        """the union of the declared flags of a flags type, evaluated from its `all()`"""
        t = self.ty[ti]
        if t["k"] != "adt" or not t["path"].startswith("coffer::flags::"):
            return None
        for i, x in enumerate(self.mir["insts"]):
            if x.get("name") == "all" and x["path"] == t["path"] + "::all":
                outs = self.ip.run_fn(self.ip.new_state(), i, [])
                vs = {o.v for o in outs if o.k == "ret"}
                if len(vs) == 1:
                    v = vs.pop()
                    if v.op == "adt" and v.a[2].op == "int":
                        return v.a[2]
        return None

    def tyid(self, s):
        for i, t in enumerate(self.ty.t):
            if t["s"] == s:
                return i
        return -1

    # ------------------------------------------------------------ atoms
    def a_cp(self, ip, s, f, a, dti, site):
        tr = (f.get("trait") or f.get("rtrait") or "").split("::")[-1].split("<")[0]
        name = f.get("name") or f.get("rname")
        M = ip.models
        if self.real_pool and "inst" in f:
            return None
        if tr == CPW:
            if name == "insert_raw":
                return M.ret(s, ip.mk_app("idx", ip.deep(s, a[1]), dti))
            if name == "insert_bsm":
                return M.ret(s, ip.mk_app("bsmidx", ip.deep(s, a[1]), dti))
            if name in ("label", "catch") and self.real_labels and "inst" in f:
                return None
            if name == "label":
                return M.ret(s, ip.mk_app("off", ip.deep(s, a[1]), dti))
            if name == "catch":
                bad = s.copy()
                bad.tags += ("nocatch",)
                return M.outs(
                    (s, M.some(dti, ip.mk_app("catchidx", ip.deep(s, a[1]), self.tyid("u16")))), (bad, M.none(dti))
                )
        if tr == CPR:
            if self.lookups_nt and name.startswith("read_") and name != "read_raw" and self.ty.path(dti) == "std::option::Option":
                if not (ip.stack and f.get("inst") == self.root):
                    bad = s.copy()
                    bad.tags += ("nocp",)
                    sym = mk("rd", "cp:%s:%s:%d" % (name, s.ctx, s.fresh()), 0, *[mk("it", u) for u in s.ctx], self.ty[dti]["args"][0])
                    return M.outs((s, M.some(dti, sym)), (bad, M.none(dti)))
            if name == "read_raw":
                i = a[1]
                if i.op == "app" and i.a[0] == "idx":
                    return M.ret(s, M.some(dti, i.a[1]))
                ety = self.ty[dti]["args"][0]
                bad = s.copy()
                bad.tags += ("nocp",)
                return M.outs((s, M.some(dti, ip.mk_app("cp", i, ety))), (bad, M.none(dti)))
            if name == "resolve_later":
                b = ip.mk_app("bsm_at", a[1], -1)
                loc = ip.deref(s, a[2]) if a[2].op == "ref" else None
                old = ip.load(s, loc) if loc else a[2]
                if loc:
                    ip.store(s, loc, ip.mk_app("cell_of", b, -1))
                s.ev += (("resolve", a[1], a[2], old),)
                return M.ret(s, UNIT)
            if name in ("get_label", "get_catch") and self.real_labels and "inst" in f:
                return None
            if name == "get_label":
                return M.ret(s, ip.mk_app("label_at", a[1], dti))
            if name == "get_catch":
                bad = s.copy()
                bad.tags += ("nocatch",)
                ety = self.ty[dti]["args"][0]
                if a[1].op == "app" and a[1].a[0] == "catchidx":
                    return M.ret(s, M.some(dti, a[1].a[1]))
                return M.outs((s, M.some(dti, ip.mk_app("catch_at", a[1], ety))), (bad, M.none(dti)))
        return None

    def a_once(self, ip, s, f, a, dti, site):
        """once_cell: an opaque cell that is empty or holds one value"""
        if f.get("rcrate", f["crate"]) != "once_cell":
            return None
        M = ip.models
        name = f.get("rname") or f.get("name") or (f.get("rpath") or f["path"]).split("::")[-1]
        if name in ("new", "default"):
            return M.ret(s, mk("cell0"))
        if name in ("from", "with_value"):
            return M.ret(s, ip.mk_app("cell_of", a[0], -1))
        if name == "get":
            c = M.val(s, a[0])
            for _ in range(4):
                if c.op == "ref":
                    c = M.val(s, c)
            if c.op == "cell0":
                return M.ret(s, M.none(dti))
            v = ip.mk_app("cell_val", c, self.deref_ty(self.ty[dti]["args"][0]))
            if c.op == "app" and c.a[0] == "cell_of":
                return M.ret(s, M.some(dti, mk("ref", ("O", v), ())))
            bad = s.copy()
            bad.tags += ("nocell",)
            r = M.outs((s, M.some(dti, mk("ref", ("O", v), ()))), (bad, M.none(dti)))
            return r[:1] if ip.nofail else r
        if name == "set":
            l = M.loc(s, a[0])
            ip.store(s, l, ip.mk_app("cell_of", ip.deep(s, a[1]), -1))
            bad = s.copy()
            bad.tags += ("cellset",)
            r = M.outs((s, M.ok(dti, UNIT)), (bad, M.err(dti, a[1])))
            return r[:1] if ip.nofail else r
        return None

    def deref_ty(self, ti):
        t = self.ty[ti]
        return t["t"] if t["k"] == "ref" else ti

    def a_text(self, ip, s, f, a, dti, site):
        """text codecs decided by their own checks; here only their inverse laws"""
        p = f.get("rpath") or f["path"]
        M = ip.models
        q = p.split("::")[-1]
        if q in self.opaque_text and (f.get("rcrate", f["crate"]) in ("coffer", "wtf_8")):
            return self.opaque_text[q](s, f, a, dti)
        name = f.get("rname") or f.get("name")
        tr = (f.get("rtrait") or f.get("trait") or "").split("::")[-1].split("<")[0]
        st = f.get("rself", f.get("self"))
        if tr == "ToString" and name == "to_string" and st is not None:
            t = self.ty[self.ty.strip(st)]
            if t["k"] == "adt" and t["crate"] == "coffer":
                return M.ret(s, ip.mk_app("display", ip.deep(s, M.val(s, a[0])), -1))
        if tr == "FromStr" and name == "from_str" and st is not None and self.ty[st].get("crate") == "coffer":
            return self.parse(s, ip.deep(s, M.val(s, a[0])), dti)
        return None

    def write_type(self, s, f, a, dti):
        ip, M = self.ip, self.ip.models
        loc = M.loc(s, a[1])
        d = ip.mk_app("display", ip.deep(s, M.val(s, a[0])), -1)
        ip.store(s, loc, seq((("sp", ip.load(s, loc)), ("sp", d))))
        return M.ret(s, UNIT)

    def parse(self, s, v, dti):
        ip, M = self.ip, self.ip.models
        okty = self.ty[dti]["v"][0]["f"][0][1]
        r = ip.mk_app("parse", v, okty)
        if r.op == "app" and r.a[0] == "parse":
            bad = s.copy()
            bad.tags += ("parse",)
            return M.outs((s, M.ok(dti, r)), (bad, M.err(dti, mk("opaque", "Error"))))
        return M.ret(s, M.ok(dti, r))

    def demutf8(self, s, f, a, dti):
        ip, M = self.ip, self.ip.models
        r = ip.mk_app("demutf8", ip.deep(s, M.val(s, a[0])), -1)
        if r.op == "app" and r.a[0] == "demutf8":
            bad = s.copy()
            bad.tags += ("parse",)
            return M.outs((s, M.ok(dti, r)), (bad, M.err(dti, mk("opaque", "Error"))))
        return M.ret(s, M.ok(dti, r))

    def nt_name(self, f):
        tr = (f.get("rtrait") or f.get("trait") or "").split("::")[-1].split("<")[0]
        if tr not in ("ReadWrite", "ConstantPoolReadWrite"):
            return None
        name = f.get("rname") or f.get("name")
        if name not in ("read_from", "write_to"):
            return None
        st = f.get("rself", f.get("self"))
        if st is None:
            return None
        t = self.ty[st]
        if t["k"] != "adt" or t["crate"] != "coffer" or t["path"].startswith(INLINE):
            return None
        return tr, tkey(self.ty, st), name, st

    def a_nt(self, ip, s, f, a, dti, site):
        if not self.nts:
            return None
        k = self.nt_name(f)
        if k is None:
            return None
        tr, ts, name, st = k
        key = (tr, ts)
        if ts in self.inline:
            return None
        M = ip.models
        if name == "write_to":
            v = ip.deep(s, M.val(s, a[0]))
            data = mk("seq", ("nt", key, v))
            w = a[-1]
            wt = self.mir["insts"][f["inst"]]["locals"][len(a)] if "inst" in f else None
            wti = self.ty[wt]["t"] if wt is not None else self.tyid("std::vec::Vec<u8>")
            bad = s.copy()
            bad.tags += ("nterr",)
            cell = s.alloc(data)
            res = M.write_all(s, M.loc(s, w), wti, mk("ref", cell, ()), dti, site)
            res = [o for o in res if o.v.op == "adt" and o.v.a[1] == 0]
            if ip.nofail:
                return res
            return res + [Out("ret", bad, M.err(dti, mk("opaque", "Error")))]
        # reading
        r = a[-1]
        loc = M.loc(s, r)
        locs = self.source_loc(s, loc)
        if locs is not None:
            res = []
            for s2 in M.src_open(s, locs):
                v = ip.load(s2, locs)
                if v.op == "src" and v.a and v.a[0][0] == "nt" and v.a[0][1] == key:
                    ip.store(s2, locs, mk("src", *v.a[1:]))
                    res.append(Out("ret", s2, M.ok(dti, v.a[0][2])))
                else:
                    res += ip.run_fn(s2, f["inst"], a)
            return res
        # unknown source: a fresh value of that type
        rt = self.mir["insts"][f["inst"]]["locals"][len(a)] if "inst" in f else None
        bad = s.copy()
        bad.tags += ("nterr",)
        okty = self.ty[dti]["v"][0]["f"][0][1]
        sym = mk("rd", "nt:%s:%s:%d" % (ts, s.ctx, s.fresh()), 0, *[mk("it", u) for u in s.ctx], okty)
        self.advance(s, loc, ("nt", key, sym))
        if ip.nofail:
            return [Out("ret", s, M.ok(dti, sym))]
        return [Out("ret", s, M.ok(dti, sym)), Out("ret", bad, M.err(dti, mk("opaque", "Error")))]

    def advance(self, s, loc, piece):
        ip = self.ip
        v = ip.load(s, loc)
        if v.op == "adv":
            c = mk("seq", *(v.a[1].a + (piece,)))
            ip.store(s, loc, mk("adv", v.a[0], c))
            ip.models.within(s, ip.models.val(s, v.a[0]), c)
        elif v.op == "ref" and v.a[0] in self.open_cells:
            self.advance(s, (v.a[0], v.a[1]), piece)
        elif v.op == "ref":
            t = ip.load(s, (v.a[0], v.a[1]))
            if t.op in ("seq", "adv", "ref", "adt") and v.a[0][0] in ("L", "H") and t.op != "seq":
                return self.advance(s, (v.a[0], v.a[1]), piece)
            ip.store(s, loc, mk("adv", v, mk("seq", piece)))
            ip.models.within(s, t, mk("seq", piece))
        elif v.op == "phi" and ip.is_slice_ref(v.a[-1]):
            ip.store(s, loc, mk("adv", v, mk("seq", piece)))
            ip.models.within(s, v, mk("seq", piece))
        elif v.op == "adt" and len(v.a) == 4 and v.a[3].op == "seq":  # Cursor
            ip.store(s, loc, ip.adt(v.a[0], 0, v.a[2], mk("seq", *(v.a[3].a + (piece,)))))
        elif v.op == "seq":
            ip.store(s, loc, mk("seq", *(v.a + (piece,))))
        else:
            ip.store(s, loc, mk("seq", piece))

    def source_loc(self, s, loc):
        ip = self.ip
        for _ in range(5):
            v = ip.load(s, loc)
            if v.op == "src":
                return loc
            if v.op == "adt" and len(v.a) == 4 and v.a[3].op == "src":
                return (loc[0], loc[1] + (("f", None, 1, -1),))
            if v.op == "ref" and v.a[0] in self.open_cells:
                return None
            if v.op == "ref":
                c = ip.load(s, (v.a[0], v.a[1]))
                if c.op == "seq":
                    from models import to_lp

                    ip.store(s, loc, mk("src", *[to_lp(q) for q in c.a]))
                    return loc
                loc = (v.a[0], v.a[1])
                continue
            return None
        return None

    def nt_expand(self, s, p):
        """inline the writer of a nonterminal: [(state, pieces)]"""
        key, val = p[1], p[2]
        insts = self.index[key]["write_to"]
        res = []
        for o in self.run_writer(s, insts[0], val):
            if o.k == "ret" and o.v.op == "adt" and o.v.a[1] == 0 and len(o.s.tags) == len(s.tags):
                res.append((o.s, o.pieces))
        return res

    # ------------------------------------------------------------ running
    def run_writer(self, s, inst, val):
        ip = self.ip
        x = self.mir["insts"][inst]
        n = x["argc"]
        dst = s.alloc(EMPTY)
        args = [mk("ref", ("O", val), ())]
        if n == 3:
            args.append(mk("ref", s.alloc(mk("sym", "cpw", -1)), ()))
        args.append(mk("ref", dst, ()))
        outs = ip.run_fn(s, inst, args)
        res = []
        for o in outs:
            d = WOut(o.k, o.s, o.v)
            v = o.s.cells.get(dst, EMPTY)
            d.pieces = v.a if v.op == "seq" else (("sp", v),)
            res.append(d)
        return res

    def unknown_source(self, ti):
        """a reader of the given type about whose content nothing is known"""
        t = self.ty[ti]
        if t["k"] == "ref" and self.ty[t["t"]]["k"] == "slice":
            return mk("ref", ("O", mk("sym", "input", t["t"])), ())
        if t["k"] == "ref":
            return None
        if t.get("path") == "std::io::Cursor":
            return self.ip.adt(ti, 0, mk("sym", "input", t["args"][0]), EMPTY)
        if t.get("crate") == "coffer_probe":
            return EMPTY
        return None

    def run_reader(self, s, inst, pieces):
        from models import to_lp

        ip = self.ip
        x = self.mir["insts"][inst]
        n = x["argc"]
        if pieces is None:
            src = self.unknown_source(self.ty[x["locals"][n]]["t"])
            if src is None:
                raise NoSource(self.ty.s(x["locals"][n]))
            src = s.alloc(src)
            self.ip.heap_ty = {src: self.ty[x["locals"][n]]["t"]}
            if self.ip.load(s, (src, ())) is EMPTY:
                self.open_cells.add(src)
        else:
            src = s.alloc(mk("src", *[to_lp(p) for p in pieces]))
        args = []
        if n == 2:
            args.append(mk("ref", s.alloc(mk("sym", "cpr", -1)), ()))
        args.append(mk("ref", src, ()))
        outs = ip.run_fn(s, inst, args)
        for o in outs:
            o.src = o.s.cells.get(src)
        return outs


class NoSource(Exception):
    pass


class WOut(Out):
    __slots__ = ("pieces",)


_UNK = {}
OPAQUE = set()  # types whose values after a loop the analysis does not follow


def has_unk(t):
    r = _UNK.get(t)
    if r is None:
        r = _UNK[t] = contains(t, lambda x: x.op in ("unk", "undef") or x.op == "phi" and x.a[-1] in OPAQUE)
    return r


def tainted(s, *terms):
    """the path was chosen by, or ends in, a value the analysis does not know: nothing is decided on it"""
    return any(has_unk(a[0]) for a in s.f.order) or any(has_unk(t) for t in terms if t is not None)


def has_bad(t):
    return contains(t, lambda x: x.op == "bad")


class RoundTrip:
    """reader(writer(x)) == x for one structure"""

    def __init__(self, C, key):
        self.C, self.key = C, key
        self.ok = 0
        self.viol = []
        self.und = []
        self.wpaths = 0
        self.excl = 0
        self.dubious = False

    def run(self):
        C, ip = self.C, self.C.ip
        d = C.index[self.key]
        if "write_to" not in d or "read_from" not in d:
            self.und.append("no pair of codecs")
            return self
        wi, ri = d["write_to"][0], d["read_from"][0]
        s = ip.new_state()
        ti = self.ti = C.mir["insts"][wi]["self"]
        val = mk("sym", "self", ti)
        C.ip.nofail = True
        C.ip.assume_lengths = True
        outs = C.run_writer(s, wi, val)
        for o in outs:
            if o.k != "ret" or o.v.op != "adt" or o.v.a[1] != 0:
                continue
            self.wpaths += 1
            self.one(o, ri, val)
        return self

    def vkey(self, v):
        """stable name of a violating path: the variant written, and what went wrong"""
        return v[3] + ":" + v[0].split(":")[0].split(" (")[0]

    def variant(self, f, val):
        """names of the variants the guards fix (without numbering that depends on the build)"""
        t = self.C.ty[self.ti]
        if t["k"] == "adt" and len(t["v"]) > 1:
            d = f.value(mk("discr", val, len(t["v"])))
            return t["v"][d]["n"] if d is not None else "*"
        return "-"

    def guards(self, s):
        return [(show(a[0]), a[1:]) for a in s.f.order]

    def one(self, o, ri, val):
        C, ip = self.C, self.C.ip
        key = self.key
        ev0 = len(o.s.f.order)
        n = 0
        wg = "; ".join("%s:%s" % (show(a[0]), a[1:]) for a in o.s.f.order)
        layout = ", ".join(show_piece(p) for p in o.pieces)
        var = self.variant(o.s.f, val)
        nv = len(self.viol)
        taint0 = tainted(o.s, mk("src", *o.pieces))
        for r in C.run_reader(o.s.copy(), ri, o.pieces):
            n += 1
            if len(self.viol) > nv and self.dubious:
                self.und.append("on a path with unmodelled values: " + self.viol.pop()[0][:300])
            self.dubious = taint0 or tainted(r.s)
            if self.raw_known(o, r):
                self.excl += 1
                continue
            if r.k == "panic":
                self.viol.append(("reader panics (%s) on what the writer produced" % r.v, wg, layout))
                continue
            v = r.v
            if v.op != "adt":
                self.und.append("reader result not determined: %s" % show(v)[:200])
                continue
            if v.a[1] != 0:
                why = "reader rejects what the writer produced"
                if has_unk(v) or any(has_unk(a[0]) for a in r.s.f.order[ev0:]):
                    self.und.append(why + " (guarded by unmodelled value)")
                else:
                    g = "; ".join("%s:%s" % (show(a[0]), a[1:]) for a in r.s.f.order[ev0:])
                    self.viol.append((why, wg, layout + " || " + g + " || " + show(v)))
                continue
            got = ip.deep(r.s, v.a[2])
            left = r.src
            if left is not None and left.op == "src":
                while left.a and left.a[0][0] == "lp" and (r.s.f.range(sub(left.a[0][4], left.a[0][2]))[0] >= 0):
                    left = mk("src", *left.a[1:])
                zl = r.s.f.value(seq_len(left))
                if zl != 0 and contains(left, lambda x: x.op == "it") and any(
                    contains(a[0], lambda x: x.op in ("plen", "phi")) for a in r.s.f.order[ev0:]
                ):
                    self.und.append("number of iterations not determined: " + show(left)[:200])
                    continue
                if zl != 0:
                    self.viol.append(("reader leaves bytes unread: " + show(left)[:200], wg, layout))
                    continue
            if has_bad(got) or (left is not None and has_bad(left)):
                self.viol.append(("reader and writer disagree on the layout: " + show(got)[:300], wg, layout))
                continue
            e = self.same(r.s.f, got, val)
            if e == 1:
                self.ok += 1
            elif has_unk(got):
                self.und.append("unmodelled: " + show(got)[:600])
            else:
                self.viol.append(("value read differs from value written: " + show(got)[:700], wg, layout))
        if len(self.viol) > nv and self.dubious:
            self.und.append("on a path with unmodelled values: " + self.viol.pop()[0][:300])
        self.viol[nv:] = [(*v, var) for v in self.viol[nv:]]
        if n == 0:
            self.und.append("no reader path")

    def same(self, f, a, b):
        ip = self.C.ip
        m = self.C.flag_mask(self.ti)
        if m is not None and a.op == "adt":
            # a flags value is a subset of its declared flags
            b = ip.adt(self.ti, 0, f.bitand(mk("fld", b, None, 0, self.C.ty[self.ti]["v"][0]["f"][0][1]), m))
        return f.decide(ip.mk_eq(f, a, b))

    def raw_known(self, o, r):
        """a raw attribute whose name is that of a recognised attribute is outside the property"""
        ip = self.C.ip
        for x in {a[0] for a in r.s.f.order[len(o.s.f.order):]}:
            if x.op == "len" and x.a[0].op == "fld" and r.s.f.value(x) is not None:
                own = x.a[0].a[0]
                if own.op == "fld" and isinstance(own.a[-1], int):
                    ty = self.C.ty[own.a[-1]]
                    if ty["k"] == "adt" and ty["path"].endswith("::RawAttribute"):
                        return True
        return False
