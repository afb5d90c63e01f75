"""Models of the standard-library operations the code under analysis uses."""
from terms import *
from state import *
import re


def strip_gen(p):
    """drop generic arguments from a path"""
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::")


PANICS = (
    "core::panicking::", "std::rt::panic_fmt", "std::rt::begin_panic", "core::option::unwrap_failed",
    "core::option::expect_failed", "core::result::unwrap_failed", "std::panicking::", "core::slice::index::slice_",
    "core::str::slice_error_fail", "std::option::unwrap_failed", "std::option::expect_failed",
    "std::result::unwrap_failed", "std::process::abort", "core::rt::",
    "std::rt::panic_display", "std::hint::unreachable_unchecked::precondition",
)

STRINGY = ("std::string::String", "wtf_8::Wtf8String", "wtf_8::alloc_impl::Wtf8String", "wtf_8::Wtf8Str", "std::vec::Vec", "std::borrow::Cow", "std::boxed::Box")


def to_lp(q):
    return ("lp",) + q[1:] + (ZERO,) if q[0] == "loop" else q


def from_lp(q):
    return ("loop",) + q[1:4] if q[0] == "lp" else q


FAIL = ("io", "nterr", "nocp", "nocatch")


CUR_END = mk("cur_end")


def bit_decide(f, cond):
    """a condition the intervals leave open, as a boolean function of the input bits"""
    from bdd import Bits, NoBits
    try:
        B = Bits(f)
        c = B.comp(cond)[0]
        care = B.assume(f.order)
        if B.b.and_(care, B.b.not_(c)) == 0:
            return 1
        if B.b.and_(care, c) == 0:
            return 0
    except NoBits:
        pass
    return None


class Models:
    texts = None  # engine/text.py

    def __init__(self, ip):
        self.ip = ip
        self.ty = ip.ty
        self.nexts = {}

    # ---------------------------------------------------------------- utils
    def ret(self, s, v):
        from interp import Out

        return [Out("ret", s, v)]

    def outs(self, *svs):
        from interp import Out

        if self.ip.nofail and len(svs) > 1:
            svs = [x for x in svs if not (x[0].tags and x[0].tags[-1] in FAIL)] or svs
        return [Out("ret", s, v) for s, v in svs]

    def panic(self, s, why, site):
        from interp import Out

        self.ip.oblige((site[0], 0), site[2], "panic:" + why, None, False, s)
        return [Out("panic", s, why)]

    def require(self, s, cond, kind, site):
        """runtime check that panics unless cond; afterwards assume cond"""
        d = s.f.decide(cond)
        self.ip.oblige((site[0], 0), site[2], kind, cond, d == 1, s)
        if d == 0:
            raise Infeasible
        if d is None:
            s.f.bound_bool(cond, 1)

    def val(self, s, v):
        if v.op == "adv":
            return self.ip.load(s, self.ip.deref(s, v))
        return self.ip.load(s, (v.a[0], v.a[1])) if v.op == "ref" else v

    def loc(self, s, v):
        return self.ip.deref(s, v)

    def some(self, ti, v):
        return self.ip.adt(ti, 1, v)

    def none(self, ti):
        return self.ip.adt(ti, 0)

    def ok(self, ti, v):
        return self.ip.adt(ti, 0, v)

    def err(self, ti, v):
        return self.ip.adt(ti, 1, v)

    def fork(self, s, t):
        return self.ip.branch(s, t)

    def is_opt(self, ti):
        return self.ty.path(ti) == "std::option::Option"

    # ---------------------------------------------------------------- dispatch
    def call(self, s, f, a, dti, site):
        p = f.get("rpath") or f["path"]
        if any(p.startswith(x) for x in PANICS):
            return self.panic(s, p.split("::")[-1], site)
        name = f.get("rname") or f.get("name") or p.split("::")[-1]
        tr = f.get("rtrait") or f.get("trait")
        st = f.get("rself", f.get("self", f.get("impl_self")))
        rcrate = f.get("rcrate", f["crate"])
        foreign = rcrate not in ("coffer", "wtf_8", "coffer_probe")
        if tr:
            m = getattr(self, "t_" + tr.split("::")[-1].split("<")[0], None)
            if m:
                r = m(s, f, a, dti, site, name, st, foreign, p)
                if r is not None:
                    return r
        if foreign:
            q = strip_gen(p)
            key = "f_" + re.sub(r"\W+", "_", q).strip("_")
            m = getattr(self, key, None)
            if m:
                return m(s, f, a, dti, site)
            if st is not None:
                sp = self.ty[st]
                k = sp.get("path", sp["k"]).split("::")[-1]
                m = getattr(self, "m_%s_%s" % (k, name), None)
                if m:
                    return m(s, f, a, dti, site)
            m = getattr(self, "n_" + q.split("::")[-1], None)
            if m and not p.startswith("<"):
                return m(s, f, a, dti, site)
        return None

    # ---------------------------------------------------------------- core traits
    def t_Clone(self, s, f, a, dti, site, name, st, foreign, p):
        if name == "clone":
            if self.ty[st]["k"] == "ref":
                return self.ret(s, self.val(s, a[0]))
            return self.ret(s, self.val(s, a[0]))
        if name == "clone_from":
            self.ip.store(s, self.loc(s, a[0]), self.val(s, a[1]))
            return self.ret(s, UNIT)

    def t_ToOwned(self, s, f, a, dti, site, name, st, foreign, p):
        if name == "to_owned":
            return self.ret(s, self.val(s, a[0]))

    def t_Deref(self, s, f, a, dti, site, name, st, foreign, p):
        if self.ty.transparent(st):
            v = self.val(s, a[0])
            if self.ty.path(st) in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc") and v.op == "ref":
                return self.ret(s, v)
            return self.ret(s, a[0])

    t_DerefMut = t_Deref

    def t_AsRef(self, s, f, a, dti, site, name, st, foreign, p):
        if self.ty.transparent(st) or self.ty[st]["k"] in ("str", "slice"):
            return self.ret(s, a[0])

    t_AsMut = t_AsRef
    t_Borrow = t_AsRef

    def stringy(self, ti):
        t = self.ty[ti]
        if t["k"] in ("ref",):
            return self.stringy(t["t"])
        if t["k"] in ("str", "slice"):
            return True
        return t["k"] == "adt" and t["path"] in STRINGY and not (
            t["path"] == "std::boxed::Box" and not self.stringy(t["args"][0])
        )

    def conv(self, s, a, sti, dti):
        if self.stringy(sti) and self.stringy(dti):
            if self.ty[dti]["k"] == "ref":
                return self.ret(s, a)
            return self.ret(s, self.val(s, a))

    def t_From(self, s, f, a, dti, site, name, st, foreign, p):
        if foreign and len(f["args"]) >= 1:
            if "Utf8Error" in p:
                return None
            src = self.from_src(f)
            if src is not None:
                return self.conv(s, a[0], src, dti)
            if self.stringy(dti):
                return self.ret(s, self.val(s, a[0]))

    def from_src(self, f):
        return f["args"][1] if f.get("trait") and len(f["args"]) > 1 else None

    def t_Into(self, s, f, a, dti, site, name, st, foreign, p):
        if self.stringy(st) and self.stringy(dti):
            return self.conv(s, a[0], st, dti)

    def t_PartialEq(self, s, f, a, dti, site, name, st, foreign, p):
        t = self.ty[self.ty.strip(st)]
        if name == "ne" and p == "std::cmp::PartialEq::ne" and "inst" in f and t.get("crate") in ("coffer", "wtf_8"):
            return self.ip.run_fn(s, f["inst"], a)  # the provided method: not eq
        x, y = self.ip.deep(s, a[0]), self.ip.deep(s, a[1])
        if t["k"] == "float":
            if not foreign and "inst" in f:
                return None
            r = self.ip.mk_app("feq", x, y, -1)
        elif not foreign and "inst" in f and self.handwritten_eq(f["inst"], t):
            return None
        else:
            r = self.ip.mk_eq(s.f, x, y)
        return self.ret(s, r if name == "eq" else self.ip.mk_not(r))

    STRUCTURAL = ("Dynamic", "Wtf8Str", "Wtf8String")

    def handwritten_eq(self, inst, t):
        """equality the crate defines itself; that of strings and dynamic constants is decided by C16"""
        x = self.ip.insts[inst]
        return not x.get("derived", True) and t.get("path", "").split("::")[-1] not in self.STRUCTURAL

    def m_float_total_cmp(self, s, f, a, dti, site):
        x, y = self.ip.deep(s, a[0]), self.ip.deep(s, a[1])
        res = []
        for c, st in self.fork(s, self.ip.mk_eq(s.f, x, y)):
            if c:
                res.append((st, self.ip.adt(dti, 1)))  # total_cmp is Equal for the same bits only
            else:
                for v in (0, 2):
                    s2 = st.copy()
                    for q, s3 in self.fork(s2, self.ip.mk_app("totlt", x, y, -1)):
                        if q == (1 if v == 0 else 0):
                            res.append((s3, self.ip.adt(dti, v)))
        return self.outs(*res)

    def m_Ordering_is_eq(self, s, f, a, dti, site):
        return self.ord_is(s, a[0], (1,))

    def m_Ordering_is_ne(self, s, f, a, dti, site):
        return self.ord_is(s, a[0], (0, 2))

    def m_Ordering_is_lt(self, s, f, a, dti, site):
        return self.ord_is(s, a[0], (0,))

    def m_Ordering_is_gt(self, s, f, a, dti, site):
        return self.ord_is(s, a[0], (2,))

    def ord_is(self, s, v, vs):
        if v.op == "adt":
            return self.ret(s, I(1 if v.a[1] in vs else 0))
        return None

    def t_PartialOrd(self, s, f, a, dti, site, name, st, foreign, p):
        t = self.ty[self.ty.strip(st)]
        if t["k"] in ("int", "char", "bool"):
            x, y = self.ip.deep(s, a[0]), self.ip.deep(s, a[1])
            op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(name)
            if op:
                return self.ret(s, self.ip.binop(s, op, x, y, self.ty.strip(st), self.ty.strip(st)))

    def t_Ord(self, s, f, a, dti, site, name, st, foreign, p):
        t = self.ty[self.ty.strip(st)]
        if t["k"] in ("int", "char") and name in ("max", "min"):
            x, y = self.ip.deep(s, a[0]), self.ip.deep(s, a[1])
            r = []
            for v, st2 in self.fork(s, self.ip.lt0(s.f, sub(x, y))):
                r.append((st2, (y if v else x) if name == "max" else (x if v else y)))
            return self.outs(*r)
        if t["k"] in ("int", "char") and name == "cmp":
            x, y = self.ip.deep(s, a[0]), self.ip.deep(s, a[1])
            r = []
            for v, st2 in self.fork(s, self.ip.lt0(s.f, sub(x, y))):
                if v:
                    r.append((st2, self.ip.adt(dti, 0)))
                    continue
                for w, st3 in self.fork(st2, self.ip.lt0(st2.f, sub(y, x))):
                    r.append((st3, self.ip.adt(dti, 2 if w else 1)))
            return self.outs(*r)

    def t_Display(self, s, f, a, dti, site, name, st, foreign, p):
        return None

    def t_Default(self, s, f, a, dti, site, name, st, foreign, p):
        if foreign and self.ty.path(dti) in ("std::vec::Vec", "std::string::String"):
            return self.ret(s, EMPTY)

    def t_ToString(self, s, f, a, dti, site, name, st, foreign, p):
        v = self.ip.deep(s, a[0])
        t = self.ty[self.ty.strip(st)]
        if t["k"] == "str" or (t["k"] == "adt" and t["path"] == "std::string::String"):
            return self.ret(s, v)
        return self.ret(s, self.ip.mk_app("display", v, t.get("path", t["s"])))

    def t_Drop(self, s, f, a, dti, site, name, st, foreign, p):
        return self.ret(s, UNIT)

    def t_Index(self, s, f, a, dti, site, name, st, foreign, p):
        if not foreign:
            return None
        t = self.ty[st]
        if t["k"] in ("slice", "str", "array") or t.get("path") in ("std::vec::Vec", "std::string::String"):
            return self.index(s, a[0], a[1], f, site)
        if t.get("path") in ("std::collections::HashMap", "std::collections::BTreeMap"):
            m = self.ip.deep(s, self.val(s, a[0]))
            k = self.ip.deep(s, a[1])
            ok = self.map_has(m, k)
            bad = []
            d = s.f.decide(ok)
            if d != 1:
                b = s.copy()
                try:
                    if d is None:
                        b.f.bound_bool(ok, 0)
                    from interp import Out

                    bad = [Out("panic", b, "map index")]
                except Infeasible:
                    pass
            if d == 0:
                return bad
            if d is None:
                s.f.bound_bool(ok, 1)
            return bad + self.ret(s, mk("ref", ("O", self.map_get(m, k, self.ty[dti]["t"])), ()))

    t_IndexMut = t_Index

    def index(self, s, base, idx, f, site):
        loc = self.loc(s, base)
        n = seq_len(self.ip.load(s, loc))
        it = None
        for x in f["args"]:
            pass
        return self.ret(s, self.index_loc(s, loc, n, idx, site, self.elem_of(f)))

    def elem_of(self, f):
        st = f.get("rself", f.get("self", f.get("impl_self")))
        return self.ty.elem(st)

    def slice_loc(self, loc, a, b):
        c, ps = loc
        if ps and ps[-1][0] == "sl":
            base = ps[-1][1]
            return mk("ref", c, ps[:-1] + (("sl", add(base, a), add(base, b)),))
        return mk("ref", c, ps + (("sl", a, b),))

    def index_loc(self, s, loc, n, idx, site, ety, check=True):
        """idx: int or Range* adt; returns ref"""
        if idx.op == "adt":
            rp = self.ty.path(idx.a[0]).split("::")[-1]
            fs = idx.a[2:]
            if rp == "Range":
                a, b = fs
            elif rp == "RangeFrom":
                a, b = fs[0], n
            elif rp == "RangeTo":
                a, b = ZERO, fs[0]
            elif rp == "RangeFull":
                a, b = ZERO, n
            elif rp == "RangeInclusive":
                a, b = fs[0], add(fs[1], ONE)
            elif rp == "RangeToInclusive":
                a, b = ZERO, add(fs[0], ONE)
            else:
                return unk("index", rp)
            if check:
                self.require(s, self.ip.lt0(s.f, sub(a, add(b, ONE))), "slice-order", site)
                self.require(s, self.ip.lt0(s.f, sub(b, add(n, ONE))), "slice-end", site)
            return self.slice_loc(loc, a, b)
        if check:
            self.require(s, self.ip.lt0(s.f, sub(idx, n)), "index", site)
        return mk("ref", loc[0], self.ip.add_index(s, loc[1], idx, ety))

    # ---------------------------------------------------------------- Fn traits
    def t_FnOnce(self, s, f, a, dti, site, name, st, foreign, p):
        if name in ("call_once", "call_mut", "call"):
            return self.call_value(s, a[0], a[1], f, dti, site)

    t_FnMut = t_FnOnce
    t_Fn = t_FnOnce

    def call_value(self, s, fn, argt, f, dti, site):
        fv = fn
        if fn.op == "ref":
            fv = self.val(s, fn)
            if fv.op == "ref":
                fv = self.val(s, fv)
        args = list(argt.a) if argt.op == "tup" else [argt]
        if fv.op == "fn":
            return self.ip.call(s, self.ip.fns[fv.a[0]], args, dti, site)
        if fv.op == "clo":
            t = self.ty[fv.a[0]]
            inst = t.get("inst")
            if inst is None and f is not None:
                inst = f.get("inst")
            if inst is None:
                return self.ret(s, unk("closure"))
            l1 = self.ty[self.ip.insts[inst]["locals"][1]]
            selfarg = fn
            if l1["k"] == "ref":
                if fn.op != "ref":
                    selfarg = mk("ref", s.alloc(fv), ())
            else:
                selfarg = fv
            return self.ip.run_fn(s, inst, [selfarg] + args)
        return None

    def apply(self, s, fn, args, dti=None, site=None):
        r = self.call_value(s, fn, mk("tup", *args), None, dti if dti is not None else 0, site or (0, 0, None))
        if r is None:
            return self.ret(s, unk("apply", fn))
        return r

    # ---------------------------------------------------------------- iterators
    def t_IntoIterator(self, s, f, a, dti, site, name, st, foreign, p):
        if name != "into_iter" or not foreign:
            return None
        t = self.ty[st]
        v = a[0]
        dt = self.ty[dti]
        dp = dt.get("path", "")
        if st == dti:
            return self.ret(s, v)
        if dp in ("std::slice::Iter", "std::slice::IterMut"):
            return self.ret(s, self.mk_iter(s, dti, v))
        if dp in ("std::vec::IntoIter", "std::array::IntoIter"):
            return self.ret(s, self.mk_iter(s, dti, v))
        if st == dti:
            return self.ret(s, v)
        if dp.startswith("std::collections::") or dp.startswith("indexmap"):
            m = self.ip.deep(s, self.val(s, v))
            return self.ret(s, self.ip.adt(dti, 0, m, ZERO, seq_len(m)))
        return None

    def t_Extend(self, s, f, a, dti, site, name, st, foreign, p):
        from interp import Out

        if name != "extend" or not foreign or self.ty.path(st) != "std::vec::Vec":
            return None
        loc = self.loc(s, a[0])
        ety = self.ty.elem(st)
        x = a[1]
        if x.op == "adt":
            q = self.ty.path(x.a[0])
            if q == "std::option::Option":
                if x.a[1] == 1:
                    self.push_to(s, loc, x.a[2], ety)
                return self.ret(s, UNIT)
            if not q.startswith(("std::iter::", "std::slice::", "std::vec::", "std::ops::Range")):
                return None
            byref = self.ty[ety]["k"] != "ref"

            def item(st2, y, acc):
                self.push_to(st2, loc, self.val(st2, y) if byref else y, ety)
                return [("back", st2, None)]

            outs, ac = self.consume(s, x, x.a[0], site, "extend", item)
            if outs is None:
                return None
            return [Out("ret", o.s, UNIT) if o.k == "edge" else o for o in outs]
        if x.op in ("seq", "sym", "fld", "ref") and not self.ip.is_map(self.val(s, x)):
            v = self.val(s, x)
            if v.op in ("seq", "sym", "fld"):
                self.ip.store(s, loc, seq((("sp", self.ip.load(s, loc)), ("sp", v))))
                return self.ret(s, UNIT)
        return None

    def mk_iter(self, s, dti, v):
        n = seq_len(self.val(s, v))
        return self.ip.adt(dti, 0, v, ZERO, n)

    def t_Iterator(self, s, f, a, dti, site, name, st, foreign, p):
        if name == "next" and foreign:
            r = self.iter_next(s, self.loc(s, a[0]), st, site)
            if r is None:
                return None
            return self.outs(*[(st2, self.none(dti) if v is None else self.some(dti, v)) for st2, v in r])
        if not foreign and name == "next":
            return None
        m = getattr(self, "it_" + name, None)
        if m:
            r = m(s, f, a, dti, site, st)
            if r is not None or name != "skip":
                return r
        # lazy adaptors: build the adaptor struct
        dt = self.ty[dti]
        if dt["k"] == "adt" and dt["path"].startswith("std::iter::"):
            nm = dt["path"].split("::")[-1]
            if nm in ("Map", "Enumerate", "Rev", "Cloned", "Copied", "Zip", "Take", "Skip", "Filter", "FilterMap", "TakeWhile", "Chain", "Peekable", "SkipWhile", "StepBy"):
                x = list(a)
                if nm == "Zip" or nm == "Chain":
                    # second arg goes through into_iter
                    x[1] = self.into_iter_value(s, x[1], f)
                if nm == "Enumerate":
                    x.append(ZERO)
                if nm == "Peekable":
                    x.append(mk("tup"))
                return self.ret(s, self.ip.adt(dti, 0, *x))
        return None

    def into_iter_value(self, s, v, f):
        # arguments already iterators in this code base, or references to sequences
        if v.op == "adt":
            return v
        return v

    def t_DoubleEndedIterator(self, s, f, a, dti, site, name, st, foreign, p):
        if name == "next_back" and foreign:
            r = self.iter_next_back(s, self.loc(s, a[0]), st, site)
            if r is not None:
                return self.outs(*[(x, self.none(dti) if v is None else self.some(dti, v)) for x, v in r])
        if name == "rev":
            return self.ret(s, self.ip.adt(dti, 0, a[0]))

    def t_ExactSizeIterator(self, s, f, a, dti, site, name, st, foreign, p):
        if name == "len":
            v = self.val(s, a[0])
            if v.op == "adt" and self.ty.path(st) in ("std::slice::Iter", "std::vec::IntoIter"):
                return self.ret(s, sub(v.a[4], v.a[3]))

    def iter_ty(self, ti):
        return self.ty[ti].get("path", "") if self.ty[ti]["k"] == "adt" else self.ty[ti]["k"]

    def iter_next(self, s, loc, ti, site):
        """[(state, value|None)] or None when not modelled"""
        ip = self.ip
        t = self.ty[ti]
        if t["k"] == "ref":
            v = ip.load(s, loc)
            return self.iter_next(s, self.loc(s, v), t["t"], site)
        p = t.get("path", "")
        nm = p.split("::")[-1]
        v = ip.load(s, loc)
        if v.op == "txt" and self.texts is not None:
            return self.texts.iter_next(s, loc, v, ti)
        if p in ("std::slice::Iter", "std::slice::IterMut", "std::vec::IntoIter", "std::array::IntoIter"):
            if v.op != "adt":
                n = seq_len(v)
                v = ip.adt(ti, 0, mk("ref", ("O", v), ()), ZERO, n)
            base, pos, end = v.a[2:5]
            res = []
            ety = self.ty.elem(ti)
            for c, st in self.fork(s, ip.lt0(s.f, sub(pos, end))):
                if c:
                    if "IntoIter" in nm:
                        x = ip.elem_at(st, self.val(st, base), pos, ety)
                    else:
                        l = self.loc(st, base)
                        x = mk("ref", l[0], ip.add_index(st, l[1], pos, ety))
                    ip.store(st, loc, ip.adt(ti, 0, base, add(pos, ONE), end))
                    res.append((st, x))
                else:
                    res.append((st, None))
            return res
        if p == "std::ops::Range":
            a, b = ip.field(s, v, None, 0, t["v"][0]["f"][0][1]), ip.field(s, v, None, 1, t["v"][0]["f"][1][1])
            res = []
            for c, st in self.fork(s, ip.lt0(s.f, sub(a, b))):
                if c:
                    ip.store(st, loc, ip.adt(ti, 0, add(a, ONE), b))
                    res.append((st, a))
                else:
                    res.append((st, None))
            return res
        if p == "std::ops::RangeInclusive":
            fs = [ip.field(s, v, None, i, fd[1]) for i, fd in enumerate(t["v"][0]["f"])]
            a, b, ex = fs
            res = []
            done = ip.mk_or(ex, ip.lt0(s.f, sub(b, a)))
            for c, st in self.fork(s, done):
                if c:
                    res.append((st, None))
                else:
                    ip.store(st, loc, ip.adt(ti, 0, add(a, ONE), b, ZERO))
                    res.append((st, a))
            return res
        if p.startswith("std::iter::"):
            return self.adaptor_next(s, loc, ti, nm, v, site, False)
        if p.startswith("std::collections::") or p.startswith("indexmap::"):
            if v.op == "adt":
                m, pos, end = v.a[2:5]
                res = []
                for c, st in self.fork(s, ip.lt0(s.f, sub(pos, end))):
                    if c:
                        ip.store(st, loc, ip.adt(ti, 0, m, add(pos, ONE), end))
                        res.append((st, self.map_item(st, m, pos, ti, p)))
                    else:
                        res.append((st, None))
                return res
        # local iterator types: run their own next
        for ii, inst in enumerate(ip.insts):
            if inst.get("name") == "next" and inst.get("self") == ti and inst["crate"] in ("coffer", "wtf_8"):
                res = []
                for o in ip.run_fn(s, ii, [mk("ref", loc[0], loc[1])]):
                    if o.k != "ret":
                        continue
                    for w, st in self.split_opt(o.s, o.v):
                        res.append((st, w))
                return res
        return None

    def split_opt(self, s, v, ety=-1):
        """Option value -> [(inner|None, state)]"""
        if v.op == "adt":
            return [(v.a[2] if v.a[1] == 1 else None, s)]
        d = self.ip.mk_discr(v, 2)
        res = []
        for c, st in self.fork_eq(s, d, 1):
            res.append((mk("fld", v, 1, 0, ety) if c else None, st))
        return res

    def fork_eq(self, s, t, val):
        return self.fork(s, self.ip.eq0(s.f, sub(t, I(val))))

    def sub_loc(self, loc, i, fty, ti):
        return (loc[0], loc[1] + (("f", None, i, fty, ti),))

    def adaptor_next(self, s, loc, ti, nm, v, site, back):
        ip = self.ip
        t = self.ty[ti]
        args = t["args"]
        nxt = self.iter_next_back if back else self.iter_next
        L = lambda i, x: self.sub_loc(loc, i, x, ti)
        if nm == "Map":
            inner = nxt(s, L(0, args[0]), args[0], site)
            if inner is None:
                return None
            res = []
            for st, x in inner:
                if x is None:
                    res.append((st, None))
                else:
                    fl = L(1, args[-1])
                    for o in self.apply(st, mk("ref", fl[0], fl[1]), [x], None, site):
                        if o.k == "ret":
                            res.append((o.s, o.v))
                        else:
                            self.pending.append(o) if hasattr(self, "pending") else None
            return res
        if nm in ("Cloned", "Copied"):
            inner = nxt(s, L(0, args[0]), args[0], site)
            if inner is None:
                return None
            return [(st, None if x is None else self.val(st, x)) for st, x in inner]
        if nm == "Enumerate" and not back:
            inner = nxt(s, L(0, args[0]), args[0], site)
            if inner is None:
                return None
            res = []
            for st, x in inner:
                if x is None:
                    res.append((st, None))
                else:
                    cl = L(1, 0)
                    c = ip.load(st, cl)
                    ip.store(st, cl, add(c, ONE))
                    res.append((st, mk("tup", c, x)))
            return res
        if nm == "Zip" and not back:
            inner = nxt(s, L(0, args[0]), args[0], site)
            if inner is None:
                return None
            res = []
            for st, x in inner:
                if x is None:
                    res.append((st, None))
                    continue
                i2 = nxt(st, L(1, args[1]), args[1], site)
                if i2 is None:
                    return None
                for s2, y in i2:
                    res.append((s2, None if y is None else mk("tup", x, y)))
            return res
        if nm == "Rev":
            return (self.iter_next if back else self.iter_next_back)(s, L(0, args[0]), args[0], site)
        if nm in ("Filter", "TakeWhile", "FilterMap"):
            inner = nxt(s, L(0, args[0]), args[0], site)
            if inner is None:
                return None
            if nm == "TakeWhile":
                res = []
                for st, x in inner:
                    if x is None:
                        res.append((st, None))
                        continue
                    fl = L(2, args[-1]) if v.op == "adt" and len(v.a) > 4 else L(1, args[-1])
                    xc = mk("ref", st.alloc(x), ())
                    for o in self.apply(st, mk("ref", fl[0], fl[1]), [xc], None, site):
                        if o.k == "ret":
                            for c, s2 in self.fork(o.s, o.v):
                                res.append((s2, x if c else None))
                return res
            return None
        if nm == "Take":
            cl = L(1, 0)
            n = ip.load(s, cl)
            res = []
            for c, st in self.fork(s, ip.lt0(s.f, scale(n, -1))):
                if not c:
                    res.append((st, None))
                    continue
                ip.store(st, cl, add(n, I(-1)))
                inner = nxt(st, L(0, args[0]), args[0], site)
                if inner is None:
                    return None
                res += inner
            return res
        if nm == "Chain":
            a = ip.load(s, L(0, args[0]))
            res = []
            if a.op != "tup":
                inner = nxt(s, L(0, args[0]), args[0], site)
                if inner is None:
                    return None
                for st, x in inner:
                    if x is not None:
                        res.append((st, x))
                    else:
                        ip.store(st, L(0, args[0]), mk("tup"))
                        i2 = nxt(st, L(1, args[1]), args[1], site)
                        if i2 is None:
                            return None
                        res += i2
                return res
            return nxt(s, L(1, args[1]), args[1], site)
        return None

    def iter_next_back(self, s, loc, ti, site):
        ip = self.ip
        t = self.ty[ti]
        p = t.get("path", "")
        nm = p.split("::")[-1]
        v = ip.load(s, loc)
        if p in ("std::slice::Iter", "std::vec::IntoIter"):
            base, pos, end = v.a[2:5]
            ety = self.ty.elem(ti)
            res = []
            for c, st in self.fork(s, ip.lt0(s.f, sub(pos, end))):
                if c:
                    e = add(end, I(-1))
                    if "IntoIter" in nm:
                        x = ip.elem_at(st, self.val(st, base), e, ety)
                    else:
                        l = self.loc(st, base)
                        x = mk("ref", l[0], ip.add_index(st, l[1], e, ety))
                    ip.store(st, loc, ip.adt(ti, 0, base, pos, e))
                    res.append((st, x))
                else:
                    res.append((st, None))
            return res
        if p == "std::ops::Range":
            a, b = v.a[2:4]
            res = []
            for c, st in self.fork(s, ip.lt0(s.f, sub(a, b))):
                if c:
                    ip.store(st, loc, ip.adt(ti, 0, a, add(b, I(-1))))
                    res.append((st, add(b, I(-1))))
                else:
                    res.append((st, None))
            return res
        if p.startswith("std::iter::"):
            return self.adaptor_next(s, loc, ti, nm, v, site, True)
        if p.startswith("std::collections::"):
            if v.op == "adt":
                m, pos, end = v.a[2:5]
                res = []
                for c, st in self.fork(s, ip.lt0(s.f, sub(pos, end))):
                    if c:
                        ip.store(st, loc, ip.adt(ti, 0, m, pos, add(end, I(-1))))
                        res.append((st, self.map_item(st, m, add(end, I(-1)), ti, p)))
                    else:
                        res.append((st, None))
                return res
        return None

    # generic consumption of an iterator
    def consume(self, s, itv, ti, site, name, on_item, init=UNIT):
        """Loops over the iterator.  on_item(state, item, acc_loc) -> list of
        ('back'|'exit', state, payload).  Normal end gives ('end', ...)."""
        from interp import Out

        ic = s.alloc(itv)
        ac = s.alloc(init)

        def body(st):
            res = []
            r = self.iter_next(st, (ic, ()), ti, site)
            if r is None:
                raise NotImplementedError
            for s2, x in r:
                if x is None:
                    res.append(Out("edge", s2, ("end", None)))
                else:
                    for k, s3, pl in on_item(s2, x, (ac, ())):
                        res.append(Out("back", s3, None) if k == "back" else Out("edge", s3, (k, pl)))
            return res

        fr = self.ip.stack[-1] if self.ip.stack else (0, 0)
        uid = "%d.%s.%d" % (fr[0], name, s.fresh())
        try:
            outs = self.ip.summarize(s, body, uid, name)
        except NotImplementedError:
            return None, ac
        return outs, ac

    def push_to(self, st, loc, x, ety):
        v = self.ip.load(st, loc)
        piece = be_piece(1, x) if ety is not None and self.ty.is_bytes(ety) else ("e", x)
        self.ip.store(st, loc, seq((("sp", v), piece)))

    def it_collect(self, s, f, a, dti, site, st):
        from interp import Out

        t = self.ty[dti]
        p = t.get("path", "")

        def run(kind, vti):
            ety = self.ty.elem(vti) if vti is not None else None

            def item(st2, x, acc):
                if kind == "plain":
                    self.push_to(st2, acc, x, ety)
                    return [("back", st2, None)]
                res = []
                okv = 0 if kind == "result" else 1
                if x.op == "adt":
                    cs = [(1 if x.a[1] == okv else 0, st2)]
                else:
                    d = self.ip.mk_discr(x, 2)
                    cs = self.fork(st2, self.ip.eq0(st2.f, sub(d, I(okv))))
                for c, s3 in cs:
                    if c:
                        w = x.a[2] if x.op == "adt" else mk("fld", x, okv, 0, ety if ety is not None else -1)
                        self.push_to(s3, acc, w, ety)
                        res.append(("back", s3, None))
                    else:
                        e = (x.a[2] if len(x.a) > 2 else None) if x.op == "adt" else mk("fld", x, 1, 0, -1)
                        res.append(("err", s3, e))
                return res

            return self.consume(s, a[0], st, site, "collect", item, EMPTY)

        if p in ("std::vec::Vec", "std::boxed::Box") or (p == "std::string::String"):
            outs, ac = run("plain", dti)
            if outs is None:
                return None
            return [Out("ret", o.s, o.s.cells[ac]) if o.k == "edge" else o for o in outs]
        if p in ("std::result::Result", "std::option::Option"):
            inner = t["args"][0]
            if self.ty.path(inner) != "std::vec::Vec":
                return None
            outs, ac = run("result" if "Result" in p else "option", inner)
            if outs is None:
                return None
            res = []
            for o in outs:
                if o.k != "edge":
                    res.append(o)
                elif o.v[0] == "end":
                    v = o.s.cells[ac]
                    res.append(Out("ret", o.s, self.ok(dti, v) if "Result" in p else self.some(dti, v)))
                else:
                    res.append(Out("ret", o.s, self.err(dti, o.v[1]) if "Result" in p else self.none(dti)))
            return res
        if p.startswith("std::collections::") or p.startswith("indexmap::"):
            outs, ac = run("plain", None)
            if outs is None:
                return None
            res = []
            for o in outs:
                res += self.collect_map(o.s, o.s.cells[ac], "BTree" in p) if o.k == "edge" else [o]
            return res
        return None

    def collect_map(self, s, v, ordered):
        es = self.entries_of(v)
        if es is None:
            return self.ret(s, v)  # pairs from a loop: the keys are taken to be distinct
        cur = [(s, EMPTY)]
        for e in es:
            nxt = []
            for st, m in cur:
                for s2, i in self.map_find(st, m, e.a[0]):
                    nxt += [(s3, m3) for s3, m3, _ in self.map_put(s2, m, e.a[0], e.a[1], i, ordered)]
            cur = nxt
        return self.outs(*cur)

    def it_by_ref(self, s, f, a, dti, site, st):
        return self.ret(s, a[0])

    def it_for_each(self, s, f, a, dti, site, st):
        from interp import Out

        fn = s.alloc(a[1])

        def item(st2, x, acc):
            return [("back", o.s, None) if o.k == "ret" else ("panic", o.s, o.v) for o in self.apply(st2, mk("ref", fn, ()), [x], None, site)]

        outs, ac = self.consume(s, a[0], st, site, "for_each", item)
        if outs is None:
            return None
        return [Out("ret", o.s, UNIT) if o.k == "edge" else o for o in outs]

    def it_try_for_each(self, s, f, a, dti, site, st):
        from interp import Out

        fn = s.alloc(a[1])

        def item(st2, x, acc):
            res = []
            for o in self.apply(st2, mk("ref", fn, ()), [x], None, site):
                if o.k != "ret":
                    continue
                v = o.v
                if v.op == "adt":
                    res.append(("back", o.s, None) if v.a[1] == 0 else ("err", o.s, v))
                else:
                    for c, s3 in self.fork_eq(o.s, self.ip.mk_discr(v, 2), 0):
                        res.append(("back", s3, None) if c else ("err", s3, v))
            return res

        it = self.val(s, a[0])
        outs, ac = self.consume(s, it, self.ty[st]["t"] if self.ty[st]["k"] == "ref" else st, site, "try_for_each", item)
        if outs is None:
            return None
        return [
            (Out("ret", o.s, self.ok(dti, UNIT)) if o.v[0] == "end" else Out("ret", o.s, o.v[1])) if o.k == "edge" else o
            for o in outs
        ]

    def it_fold(self, s, f, a, dti, site, st):
        from interp import Out

        fn = s.alloc(a[2])

        def item(st2, x, acc):
            v = self.ip.load(st2, acc)
            res = []
            for o in self.apply(st2, mk("ref", fn, ()), [v, x], dti, site):
                if o.k == "ret":
                    self.ip.store(o.s, acc, o.v)
                    res.append(("back", o.s, None))
            return res

        outs, ac = self.consume(s, a[0], st, site, "fold", item, a[1])
        if outs is None:
            return None
        return [Out("ret", o.s, o.s.cells[ac]) if o.k == "edge" else o for o in outs]

    def _search(self, s, f, a, dti, site, st, name, hit):
        from interp import Out

        fn = s.alloc(a[1])
        cnt = s.alloc(ZERO)
        it = self.val(s, a[0])
        ti = self.ty[st]["t"] if self.ty[st]["k"] == "ref" else st

        def item(st2, x, acc):
            res = []
            arg = mk("ref", st2.alloc(x), ()) if name == "find" else x
            for o in self.apply(st2, mk("ref", fn, ()), [arg], None, site):
                if o.k != "ret":
                    continue
                for c, s3 in self.fork(o.s, o.v):
                    stop = c == (0 if name == "all" else 1)
                    if stop:
                        res.append(("hit", s3, (x, s3.cells[cnt])))
                    else:
                        s3.cells[cnt] = add(s3.cells[cnt], ONE)
                        res.append(("back", s3, None))
            return res

        outs, ac = self.consume(s, it, ti, site, name, item)
        if outs is None:
            return None
        res = []
        for o in outs:
            if o.k != "edge":
                res.append(o)
                continue
            res.append(Out("ret", o.s, hit(None if o.v[0] == "end" else o.v[1])))
        return res

    def it_position(self, s, f, a, dti, site, st):
        return self._search(s, f, a, dti, site, st, "position", lambda h: self.none(dti) if h is None else self.some(dti, h[1]))

    def it_find(self, s, f, a, dti, site, st):
        return self._search(s, f, a, dti, site, st, "find", lambda h: self.none(dti) if h is None else self.some(dti, h[0]))

    def it_any(self, s, f, a, dti, site, st):
        return self._search(s, f, a, dti, site, st, "any", lambda h: ZERO if h is None else ONE)

    def it_all(self, s, f, a, dti, site, st):
        return self._search(s, f, a, dti, site, st, "all", lambda h: ONE if h is None else ZERO)

    def it_find_map(self, s, f, a, dti, site, st):
        from interp import Out

        fn = s.alloc(a[1])

        def item(st2, x, acc):
            res = []
            for o in self.apply(st2, mk("ref", fn, ()), [x], dti, site):
                if o.k != "ret":
                    continue
                if o.v.op == "adt":
                    res.append(("back", o.s, None) if o.v.a[1] == 0 else ("hit", o.s, o.v))
                else:
                    for c, s3 in self.fork_eq(o.s, self.ip.mk_discr(o.v, 2), 0):
                        res.append(("back", s3, None) if c else ("hit", s3, o.v))
            return res

        outs, ac = self.consume(s, self.val(s, a[0]), self.ty[st]["t"] if self.ty[st]["k"] == "ref" else st, site, "find_map", item)
        if outs is None:
            return None
        return [(Out("ret", o.s, self.none(dti) if o.v[0] == "end" else o.v[1])) if o.k == "edge" else o for o in outs]

    def it_nth(self, s, f, a, dti, site, st):
        n = s.f.value(a[1])
        if n is None or n > 16:
            return None
        loc = self.loc(s, a[0])
        cur = [(s, UNIT)]
        fin = []
        for i in range(n + 1):
            nx = []
            for st2, _ in cur:
                r = self.iter_next(st2, loc, st, site)
                if r is None:
                    return None
                for s3, x in r:
                    (fin if x is None else nx).append((s3, x))
            cur = nx
        return self.outs(*[(x, self.none(dti)) for x, _ in fin], *[(x, self.some(dti, v)) for x, v in cur])

    def it_count(self, s, f, a, dti, site, st):
        from interp import Out

        def item(st2, x, acc):
            self.ip.store(st2, acc, add(self.ip.load(st2, acc), ONE))
            return [("back", st2, None)]

        outs, ac = self.consume(s, a[0], st, site, "count", item, ZERO)
        if outs is None:
            return None
        return [Out("ret", o.s, o.s.cells[ac]) if o.k == "edge" else o for o in outs]

    def it_last(self, s, f, a, dti, site, st):
        return None

    def it_sum(self, s, f, a, dti, site, st):
        from interp import Out

        def item(st2, x, acc):
            self.ip.store(st2, acc, add(self.ip.load(st2, acc), self.val(st2, x)))
            return [("back", st2, None)]

        outs, ac = self.consume(s, a[0], st, site, "sum", item, ZERO)
        if outs is None:
            return None
        return [Out("ret", o.s, o.s.cells[ac]) if o.k == "edge" else o for o in outs]

    # ---------------------------------------------------------------- slices, Vec, str
    def n_len(self, s, f, a, dti, site):
        w = self.val(s, a[0])
        if w.op == "src":
            return self.ret(s, seq_len(self.src_norm(s, w)))
        v = self.ip.deep(s, w)
        st = f.get("rself", f.get("self", f.get("impl_self")))
        return self.ret(s, seq_len(self.val(s, a[0])) if self.val(s, a[0]).op == "seq" else seq_len(v))

    def n_is_empty(self, s, f, a, dti, site):
        n = self.n_len(s, f, a, dti, site)[0].v
        return self.ret(s, self.ip.eq0(s.f, n))

    def m_slice_iter(self, s, f, a, dti, site):
        return self.ret(s, self.mk_iter(s, dti, a[0]))

    m_slice_iter_mut = m_slice_iter

    def n_iter(self, s, f, a, dti, site):
        if self.ty.path(dti) in ("std::slice::Iter",):
            return self.ret(s, self.mk_iter(s, dti, a[0]))
        if (self.ty.path(dti) or "").startswith("std::collections") or (self.ty.path(dti) or "").startswith("indexmap"):
            m = self.ip.deep(s, self.val(s, a[0]))
            return self.ret(s, self.ip.adt(dti, 0, m, ZERO, seq_len(m)))

    def it_skip(self, s, f, a, dti, site, st):
        """skipping is done at once, for iterators over sequences"""
        v = a[0]
        if len(a) != 2 or self.ty.path(dti) != "std::iter::Skip" or v.op != "adt" or self.ty.path(v.a[0]) not in ("std::slice::Iter", "std::vec::IntoIter"):
            return None
        base, pos, end = v.a[2:5]
        res = []
        for c, st in self.fork(s, self.ip.lt0(s.f, sub(sub(end, pos), a[1]))):
            w = self.ip.adt(v.a[0], 0, base, end if c else add(pos, a[1]), end)
            res.append((st, self.ip.adt(dti, 0, w, ZERO)))
        return self.outs(*res)

    def n_as_slice(self, s, f, a, dti, site):
        v = self.val(s, a[0])
        if self.ty.path(self.ty.strip(f.get("rself", f.get("impl_self")))) == "std::slice::Iter" and v.op == "adt":
            return self.ret(s, self.slice_loc(self.loc(s, v.a[2]), v.a[3], v.a[4]))
        return self.ret(s, a[0])

    def ident(self, s, f, a, dti, site):
        return self.ret(s, a[0])

    n_as_bytes = n_as_str = n_as_mut_slice = n_into_bytes = n_into_string = n_as_ref_ = ident
    n_from_utf8_unchecked = n_into_boxed_slice = n_must_use = n_into_vec = ident
    n_black_box = n_as_wtf8_str = ident

    def m_Chars_as_str(self, s, f, a, dti, site):
        v = self.val(s, a[0])
        return self.ret(s, mk("ref", ("O", mk("chrest", v)), ()))

    def n_to_vec(self, s, f, a, dti, site):
        return self.ret(s, self.val(s, a[0]))

    def n_into_owned(self, s, f, a, dti, site):
        return self.ret(s, self.val(s, a[0]))

    def m_Vec_new(self, s, f, a, dti, site):
        return self.ret(s, EMPTY)

    m_Vec_with_capacity = m_String_new = m_String_with_capacity = m_Vec_new

    def m_Vec_push(self, s, f, a, dti, site):
        self.push_to(s, self.loc(s, a[0]), a[1], self.elem_of(f))
        return self.ret(s, UNIT)

    def m_Vec_extend_from_slice(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        self.ip.store(s, loc, seq((("sp", self.ip.load(s, loc)), ("sp", self.val(s, a[1])))))
        return self.ret(s, UNIT)

    def m_Vec_append(self, s, f, a, dti, site):
        loc, l2 = self.loc(s, a[0]), self.loc(s, a[1])
        self.ip.store(s, loc, seq((("sp", self.ip.load(s, loc)), ("sp", self.ip.load(s, l2)))))
        self.ip.store(s, l2, EMPTY)
        return self.ret(s, UNIT)

    def m_Vec_reserve(self, s, f, a, dti, site):
        return self.ret(s, UNIT)

    m_Vec_reserve_exact = m_Vec_shrink_to_fit = m_String_reserve = m_Vec_reserve

    def m_Vec_clear(self, s, f, a, dti, site):
        self.ip.store(s, self.loc(s, a[0]), EMPTY)
        return self.ret(s, UNIT)

    def m_Vec_insert(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        v = self.ip.load(s, loc)
        n = seq_len(v)
        self.require(s, self.ip.lt0(s.f, sub(a[1], add(n, ONE))), "insert-index", site)
        ety = self.elem_of(f)
        piece = be_piece(1, a[2]) if ety is not None and self.ty.is_bytes(ety) else ("e", a[2])
        self.ip.store(s, loc, seq((mk_slice(v, ZERO, a[1]), piece, mk_slice(v, a[1], n))))
        return self.ret(s, UNIT)

    def m_Vec_pop(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        v = self.ip.load(s, loc)
        n = seq_len(v)
        res = []
        for c, st in self.fork(s, self.ip.eq0(s.f, n)):
            if c:
                res.append((st, self.none(dti)))
            else:
                i = add(n, I(-1))
                x = self.ip.elem_at(st, v, i, self.elem_of(f))
                self.ip.store(st, loc, self.ip.slice_of(v, ZERO, i))
                res.append((st, self.some(dti, x)))
        return self.outs(*res)

    def m_Vec_truncate(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        v = self.ip.load(s, loc)
        res = []
        for c, st in self.fork(s, self.ip.lt0(s.f, sub(a[1], seq_len(v)))):
            if c:
                self.ip.store(st, loc, self.ip.slice_of(v, ZERO, a[1]))
            res.append((st, UNIT))
        return self.outs(*res)

    def f_std_vec_from_elem(self, s, f, a, dti, site):
        ety = self.ty.elem(dti)
        n = s.f.value(a[1])
        if self.ty.is_bytes(ety) and isint(a[0]) and n is not None and n < 65536:
            return self.ret(s, kseq(bytes([a[0].a[0]]) * n))
        return self.ret(s, seq((("rep", a[0], a[1]),)))

    def n_box_assume_init_into_vec_unsafe(self, s, f, a, dti, site):
        return self.ret(s, self.val(s, a[0]))

    def n_new_uninit(self, s, f, a, dti, site):
        return self.ret(s, mk("ref", s.alloc(mk("undef", "uninit")), ()))

    def m_Box_new(self, s, f, a, dti, site):
        return self.ret(s, mk("ref", s.alloc(a[0]), ()))

    m_Arc_new = m_Rc_new = m_Box_new

    def m_slice_get(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        n = seq_len(self.ip.load(s, loc))
        idx = a[1]
        res = []
        if idx.op == "adt":
            # range get
            st = s.copy()
            rp = self.ty.path(idx.a[0]).split("::")[-1]
            fs = idx.a[2:]
            ab = {"Range": lambda: fs, "RangeFrom": lambda: (fs[0], n), "RangeTo": lambda: (ZERO, fs[0])}.get(rp)
            if not ab:
                return None
            x, y = ab()
            cond = self.ip.mk_and(self.ip.lt0(s.f, sub(x, add(y, ONE))), self.ip.lt0(s.f, sub(y, add(n, ONE))))
            for c, st in self.fork(s, cond):
                res.append((st, self.some(dti, self.slice_loc(loc, x, y)) if c else self.none(dti)))
            return self.outs(*res)
        for c, st in self.fork(s, self.ip.lt0(s.f, sub(idx, n))):
            if c:
                res.append((st, self.some(dti, mk("ref", loc[0], self.ip.add_index(st, loc[1], idx, self.elem_of(f))))))
            else:
                res.append((st, self.none(dti)))
        return self.outs(*res)

    m_slice_get_mut = m_slice_get

    def m_slice_get_unchecked(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        n = seq_len(self.ip.load(s, loc))
        return self.ret(s, self.index_loc(s, loc, n, a[1], site, self.elem_of(f), True))

    def m_slice_first(self, s, f, a, dti, site):
        return self.m_slice_get(s, f, [a[0], ZERO], dti, site)

    def m_slice_last(self, s, f, a, dti, site):
        n = seq_len(self.val(s, a[0]))
        res = []
        loc = self.loc(s, a[0])
        for c, st in self.fork(s, self.ip.eq0(s.f, n)):
            if c:
                res.append((st, self.none(dti)))
            else:
                res.append((st, self.some(dti, mk("ref", loc[0], self.ip.add_index(st, loc[1], add(n, I(-1)), self.elem_of(f))))))
        return self.outs(*res)

    def n_split_at(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        n = seq_len(self.ip.load(s, loc))
        self.require(s, self.ip.lt0(s.f, sub(a[1], add(n, ONE))), "split_at", site)
        return self.ret(s, mk("tup", self.slice_loc(loc, ZERO, a[1]), self.slice_loc(loc, a[1], n)))

    def n_copy_from_slice(self, s, f, a, dti, site):
        n, m = seq_len(self.ip.load(s, self.loc(s, a[0]))), seq_len(self.val(s, a[1]))
        self.require(s, self.ip.eq0(s.f, sub(n, m)), "copy_from_slice", site)
        self.ip.store(s, self.loc(s, a[0]), self.val(s, a[1]))
        return self.ret(s, UNIT)

    n_clone_from_slice = n_copy_from_slice

    # pointers into slices are views of the rest of the slice
    def f_std_ptr_const_ptr_add(self, s, f, a, dti, site):
        if a[0].op != "ref":
            return None
        loc = self.loc(s, a[0])
        n = seq_len(self.ip.load(s, loc))
        self.require(s, self.ip.lt0(s.f, sub(a[1], add(n, ONE))), "unsafe:pointer", site)
        return self.ret(s, self.slice_loc(loc, a[1], n))

    f_std_ptr_mut_ptr_add = f_std_ptr_const_ptr_add

    def f_std_slice_from_raw_parts(self, s, f, a, dti, site):
        if a[0].op != "ref":
            return None
        loc = self.loc(s, a[0])
        n = seq_len(self.ip.load(s, loc))
        self.require(s, self.ip.lt0(s.f, sub(a[1], add(n, ONE))), "unsafe:slice", site)
        return self.ret(s, self.slice_loc(loc, ZERO, a[1]))

    f_std_slice_from_raw_parts_mut = f_std_slice_from_raw_parts

    # ---------------------------------------------------------------- integers
    def n_to_be_bytes(self, s, f, a, dti, site):
        n = int(self.ty[dti]["n"])
        t = self.ty[f.get("rself", f.get("impl_self", f.get("self")))]
        v = a[0]
        if t["k"] == "float":
            v = self.ip.mk_app("fbits", v, self.uty(n))
        return self.ret(s, seq((be_piece(n, v),)))

    def n_from_be_bytes(self, s, f, a, dti, site):
        t = self.ty[dti]
        v = a[0]
        bits = t["bits"] if "bits" in t else int(t["s"][1:])
        n = bits // 8
        if v.op == "seq" and len(v.a) == 1 and v.a[0][0] == "be" and v.a[0][1] == n:
            x = v.a[0][2]
        else:
            els = self.ip.elements(s, v)
            if els is None or len(els) != n:
                return self.ret(s, unk("from_be", v))
            x = ZERO
            for e in els:
                x = add(scale(x, 256), e)
            x = s.f.join_bits(x)
        if t["k"] == "float":
            x = s.f.wrap(bits, False, x)
            return self.ret(s, self.ip.mk_app("fofbits", x, -1))
        return self.ret(s, s.f.wrap(bits, t["signed"], x))

    def n_to_bits(self, s, f, a, dti, site):
        return self.ret(s, self.ip.mk_app("fbits", a[0], dti))

    def n_from_bits(self, s, f, a, dti, site):
        if self.ty[dti]["k"] == "float":
            return self.ret(s, self.ip.mk_app("fofbits", a[0], -1))

    def int_of(self, f, dti):
        st = f.get("rself", f.get("impl_self", f.get("self", dti)))
        return self.ty[st]

    def _wrapping(op):
        def g(self, s, f, a, dti, site):
            t = self.ty[dti]
            if t["k"] != "int":
                return None
            return self.ret(s, s.f.wrap(t["bits"], t["signed"], op(a[0], a[1])))
        return g

    n_wrapping_add = _wrapping(add)
    n_wrapping_sub = _wrapping(sub)
    n_wrapping_mul = _wrapping(mul)

    def n_wrapping_neg(self, s, f, a, dti, site):
        t = self.ty[dti]
        return self.ret(s, s.f.wrap(t["bits"], t["signed"], scale(a[0], -1)))

    def _checked(op):
        def g(self, s, f, a, dti, site):
            t = self.ty[self.ty[dti]["args"][0]]
            if t["k"] != "int":
                return None
            r = op(a[0], a[1])
            res = []
            for c, st in self.fork(s, mk("ovf", t["bits"], t["signed"], r)):
                res.append((st, self.none(dti) if c else self.some(dti, r)))
            return self.outs(*res)
        return g

    n_checked_add = _checked(add)
    n_checked_sub = _checked(sub)
    n_checked_mul = _checked(mul)

    def _saturating(op):
        def g(self, s, f, a, dti, site):
            t = self.ty[dti]
            r = op(a[0], a[1])
            L, H = self.ty.int_range(dti)
            res = []
            for c, st in self.fork(s, self.ip.lt0(s.f, sub(r, I(L)))):
                if c:
                    res.append((st, I(L)))
                    continue
                for c2, s2 in self.fork(st, self.ip.lt0(st.f, sub(I(H), r))):
                    res.append((s2, I(H) if c2 else r))
            return self.outs(*res)
        return g

    n_saturating_add = _saturating(add)
    n_saturating_sub = _saturating(sub)

    def n_overflowing_sub(self, s, f, a, dti, site):
        return None

    def t_TryFrom(self, s, f, a, dti, site, name, st, foreign, p):
        if not foreign or name != "try_from":
            return None
        t = self.ty[st]
        if t["k"] == "int":
            src = None
            r = []
            o = mk("ovf", t["bits"], t["signed"], a[0])
            lo, hi = s.f.range(a[0])
            if lo <= -INF:
                return None
            for c, s2 in self.fork(s, o):
                if c:
                    r.append((s2, self.err(dti, mk("opaque", "TryFromIntError"))))
                else:
                    r.append((s2, self.ok(dti, a[0])))
            return self.outs(*r)
        if t["k"] == "char":
            return None

    def t_Add(self, s, f, a, dti, site, name, st, foreign, p):
        if not foreign or self.ty[dti]["k"] != "int":
            return None
        return self.arith(s, add, a, dti, site)

    def t_Sub(self, s, f, a, dti, site, name, st, foreign, p):
        if not foreign or self.ty[dti]["k"] != "int":
            return None
        return self.arith(s, sub, a, dti, site)

    def t_Mul(self, s, f, a, dti, site, name, st, foreign, p):
        if not foreign or self.ty[dti]["k"] != "int":
            return None
        return self.arith(s, mul, a, dti, site)

    def arith(self, s, op, a, dti, site):
        t = self.ty[dti]
        r = op(self.ip.deep(s, a[0]), self.ip.deep(s, a[1]))
        o = mk("ovf", t["bits"], t["signed"], r)
        d = s.f.decide(o)
        self.ip.oblige((site[0], 0), site[2], "assert:overflow", o, d == 0, s)
        if d is None:
            s.f.bound_bool(o, 0)
        return self.ret(s, r)

    # ---------------------------------------------------------------- chars
    def n_from_u32(self, s, f, a, dti, site):
        ok = self.ip.mk_and(
            self.ip.lt0(s.f, sub(a[0], I(0x110000))),
            self.ip.mk_or(
                self.ip.lt0(s.f, sub(a[0], I(0xD800))), self.ip.lt0(s.f, sub(I(0xDFFF), a[0]))
            ),
        )
        res = []
        for c, st in self.fork(s, ok):
            res.append((st, self.some(dti, a[0]) if c else self.none(dti)))
        return self.outs(*res)

    def n_from_u32_unchecked(self, s, f, a, dti, site):
        ok = self.ip.mk_and(
            self.ip.lt0(s.f, sub(a[0], I(0x110000))),
            self.ip.mk_or(
                self.ip.lt0(s.f, sub(a[0], I(0xD800))), self.ip.lt0(s.f, sub(I(0xDFFF), a[0]))
            ),
        )
        d = s.f.decide(ok)
        if d is None:
            d = bit_decide(s.f, ok)
        self.ip.oblige((site[0], 0), site[2], "unsafe:char", ok, d == 1, s)
        return self.ret(s, a[0])

    def utf8_bytes(self, st, c):
        f = st.f
        lo, hi = f.range(c)
        if hi < 0x80:
            return [c]
        b = lambda l, w: f.bits(c, l, w)
        if lo >= 0x80 and hi < 0x800:
            return [add(I(0xC0), b(6, 5)), add(I(0x80), b(0, 6))]
        if lo >= 0x800 and hi < 0x10000:
            return [add(I(0xE0), b(12, 4)), add(I(0x80), b(6, 6)), add(I(0x80), b(0, 6))]
        return [add(I(0xF0), b(18, 3)), add(I(0x80), b(12, 6)), add(I(0x80), b(6, 6)), add(I(0x80), b(0, 6))]

    def char_split(self, s, c):
        out = [s]
        for k in (0x80, 0x800, 0x10000):
            nxt = []
            for st in out:
                nxt += [x for _, x in self.fork(st, self.ip.lt0(st.f, sub(c, I(k))))]
            out = nxt
        return out

    def n_len_utf8(self, s, f, a, dti, site):
        return self.outs(*[(st, I(len(self.utf8_bytes(st, a[0])))) for st in self.char_split(s, a[0])])

    def n_encode_utf8(self, s, f, a, dti, site):
        res = []
        loc = self.loc(s, a[1])
        for st in self.char_split(s, a[0]):
            bs = self.utf8_bytes(st, a[0])
            v = self.ip.load(st, loc)
            n = seq_len(v)
            self.require(st, self.ip.lt0(st.f, sub(I(len(bs)), add(n, ONE))), "encode_utf8", site)
            new = seq([be_piece(1, b) for b in bs] + [mk_slice(v, I(len(bs)), n)])
            self.ip.store(st, loc, new)
            res.append((st, self.slice_loc(loc, ZERO, I(len(bs)))))
        return self.outs(*res)

    def m_String_push(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        res = []
        for st in self.char_split(s, a[1]):
            bs = self.utf8_bytes(st, a[1])
            self.ip.store(st, loc, seq([("sp", self.ip.load(st, loc))] + [be_piece(1, b) for b in bs]))
            res.append((st, UNIT))
        return self.outs(*res)

    def m_String_push_str(self, s, f, a, dti, site):
        return self.m_Vec_extend_from_slice(s, f, a, dti, site)

    def n_to_digit(self, s, f, a, dti, site):
        return None

    # ---------------------------------------------------------------- mem
    def f_std_mem_replace(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        old = self.ip.load(s, loc)
        self.ip.store(s, loc, a[1])
        return self.ret(s, old)

    def f_std_mem_take(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        old = self.ip.load(s, loc)
        p = self.ty.path(dti)
        if p in ("std::vec::Vec", "std::string::String"):
            self.ip.store(s, loc, EMPTY)
            return self.ret(s, old)
        if p == "std::option::Option":
            self.ip.store(s, loc, self.none(dti))
            return self.ret(s, old)
        if self.ty[dti]["k"] in ("int", "bool"):
            self.ip.store(s, loc, ZERO)
            return self.ret(s, old)
        return None

    def f_std_mem_swap(self, s, f, a, dti, site):
        l1, l2 = self.loc(s, a[0]), self.loc(s, a[1])
        x, y = self.ip.load(s, l1), self.ip.load(s, l2)
        self.ip.store(s, l1, y)
        self.ip.store(s, l2, x)
        return self.ret(s, UNIT)

    def f_std_mem_drop(self, s, f, a, dti, site):
        return self.ret(s, UNIT)

    f_std_mem_forget = f_std_mem_drop

    def f_std_option_Option_take(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        old = self.ip.load(s, loc)
        self.ip.store(s, loc, self.none(dti))
        return self.ret(s, old)

    # ---------------------------------------------------------------- formatting (opaque)
    def opaque(self, s, f, a, dti, site):
        return self.ret(s, mk("opaque", self.ty.s(dti)[:40]))

    n_new_display = n_new_debug = n_new_upper_hex = n_new_lower_hex = n_format = n_type_name = opaque
    f_std_fmt_Arguments_new = f_std_fmt_Arguments_new_v1 = f_std_fmt_Arguments_new_const = opaque
    f_std_fmt_Arguments_from_str = opaque
    n_type_name_of_val = opaque

    # ---------------------------------------------------------------- maps
    # A map is a sequence of (key, value) pairs in iteration order. Maps whose pairs are known one by one are
    # searched by comparing keys; others fall back to uninterpreted lookups.
    def entries_of(self, m):
        if m.op == "seq" and all(p[0] == "e" and p[1].op == "tup" for p in m.a):
            return [p[1] for p in m.a]
        return None

    def unmut(self, s, m):
        """an entry added through a mutable reference that is no longer in use (the map is accessed again)"""
        if m.op == "mmut" and len(m.a) == 4:
            b = self.unmut(s, m.a[0])
            return seq((("sp", b), ("e", mk("tup", m.a[1], self.ip.deep(s, self.val(s, m.a[2]))))))
        return m

    def map_find(self, s, m, k):
        """[(state, index | None | "?")]"""
        es = self.entries_of(m)
        if es is None:
            if m.op == "seq" and m.a and m.a[0][0] == "sp" and all(p[0] == "e" and p[1].op == "tup" for p in m.a[1:]):
                # entries added to an unknown map
                for i, p in enumerate(m.a):
                    if i and p[1].a[0] is k:
                        return [(s, i)]
                res, cur = [], [s]
                for i, p in enumerate(m.a):
                    if i:
                        nxt = []
                        for st in cur:
                            for c, s2 in self.fork(st, self.ip.mk_eq(st.f, p[1].a[0], k)):
                                (res.append((s2, i)) if c else nxt.append(s2))
                        cur = nxt
                for st in cur:
                    res += [(s2, "?" if c else None) for c, s2 in self.fork(st, self.ip.mk_app("maphas", m.a[0][1], k, -1))]
                return res
            if m.op == "seq" and any(p[0] == "e" and p[1].op == "tup" and p[1].a[0] is k for p in m.a):
                return [(s, "?")]
            return [(st, "?" if c else None) for c, st in self.fork(s, self.ip.mk_app("maphas", m, k, -1))]
        for i, e in enumerate(es):
            if e.a[0] is k:
                return [(s, i)]
        res = []
        cur = [s]
        for i, e in enumerate(es):
            nxt = []
            for st in cur:
                for c, s2 in self.fork(st, self.ip.mk_eq(st.f, e.a[0], k)):
                    if c:
                        res.append((s2, i))
                    else:
                        nxt.append(s2)
            cur = nxt
        return res + [(st, None) for st in cur]

    def map_has(self, m, k):
        if m is EMPTY:
            return ZERO
        if m.op == "seq" and any(p[0] == "e" and p[1].op == "tup" and p[1].a[0] is k for p in m.a):
            return ONE
        return self.ip.mk_app("maphas", m, k, -1)

    def map_get(self, m, k, vti):
        if m.op == "seq":
            for p in reversed(m.a):
                if p[0] != "e" or p[1].op != "tup":
                    break
                if p[1].a[0] is k:
                    return p[1].a[1]
            if m.a and m.a[0][0] == "sp" and all(p[0] == "e" and p[1].op == "tup" for p in m.a[1:]):
                m = m.a[0][1]  # the other keys were found to differ
        return mk("mget", m, k, vti)

    def map_val(self, m, k, i, vti):
        return m.a[i][1].a[1] if isinstance(i, int) else self.map_get(m, k, vti)

    def map_put(self, s, m, k, v, i, ordered):
        """[(state, map, index)] after adding or replacing"""
        if isinstance(i, int):
            return [(s, mk("seq", *[p if j != i else ("e", mk("tup", p[1].a[0], v)) for j, p in enumerate(m.a)]), i)]
        new = ("e", mk("tup", k, v))
        es = self.entries_of(m)
        if i is None and ordered and es is not None:
            res = []
            cur = [s]
            for j, e in enumerate(es):
                nxt = []
                for st in cur:
                    for c, s2 in self.fork(st, self.ip.lt0(st.f, sub(k, e.a[0]))):
                        if c:
                            res.append((s2, mk("seq", *(m.a[:j] + (new,) + m.a[j:])), j))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(st, mk("seq", *(m.a + (new,))), len(es)) for st in cur]
        return [(s, seq((("sp", m), new)), len(es) if es is not None else "?")]

    def map_item(self, s, m, pos, ti, p):
        nm = p.split("::")[-1]
        es = self.entries_of(m)
        if m.op == "seq":
            e = self.ip.elem_at(s, m, pos, None)
            if e.op == "tup":
                k, v = e.a
            else:
                k, v = mk("fld", e, None, 0, -1), mk("fld", e, None, 1, -1)
        else:
            k, v = self.ip.map_entry(m, pos).a
        if nm in ("IntoValues", "Values", "ValuesMut"):
            return v
        if nm in ("Keys", "IntoKeys"):
            return k
        return mk("tup", k, v)

    def m_HashMap_new(self, s, f, a, dti, site):
        return self.ret(s, EMPTY)

    m_HashMap_with_capacity = m_BTreeMap_new = m_IndexMap_new = m_IndexMap_with_capacity = m_HashSet_new = m_HashMap_new
    m_BTreeSet_new = m_HashMap_new

    def map_insert(self, s, f, a, dti, ordered):
        loc = self.loc(s, a[0])
        k = self.ip.deep(s, a[1])
        v = self.ip.deep(s, a[2]) if len(a) > 2 else UNIT
        m0 = self.unmut(s, self.ip.load(s, loc))
        if self.entries_of(m0) is None:
            self.ip.store(s, loc, seq((("sp", m0), ("e", mk("tup", k, v)))))
            return self.ret(s, mk("unk", "old", m0, k))
        res = []
        for st, i in self.map_find(s, m0, k):
            for s2, m, j in self.map_put(st, m0, k, v, i, ordered):
                self.ip.store(s2, loc, m)
                if not self.is_opt(dti):
                    res.append((s2, I(0 if isinstance(i, int) else 1)))
                else:
                    res.append((s2, self.some(dti, m0.a[i][1].a[1]) if isinstance(i, int) else self.none(dti)))
        return self.outs(*res)

    def m_HashMap_insert(self, s, f, a, dti, site):
        return self.map_insert(s, f, a, dti, False)

    m_IndexMap_insert = m_HashSet_insert = m_HashMap_insert

    def m_BTreeMap_insert(self, s, f, a, dti, site):
        return self.map_insert(s, f, a, dti, True)

    def sorted_forks(self, s, items):
        """all orders of (key, item) by increasing key the facts allow: [(state, [item])]"""
        cur = [(s, [])]
        for k, x in items:
            nxt = []
            for st, done in cur:
                front = [st]
                for j, (k2, _) in enumerate(done):
                    rest = []
                    for st2 in front:
                        for c, s3 in self.fork(st2, self.ip.lt0(st2.f, sub(k, k2))):
                            if c:
                                nxt.append((s3, done[:j] + [(k, x)] + done[j:]))
                            else:
                                rest.append(s3)
                    front = rest
                nxt += [(st2, done + [(k, x)]) for st2 in front]
            cur = nxt
        return [(st, [x for _, x in d]) for st, d in cur]

    def cmp_forks(self, s, fn, items, site, split=False):
        """all orders a comparator gives (stable insertion): [(state, [item])], or None if it is not determined"""
        fl = s.alloc(fn)
        parts = (lambda st, e: [mk("ref", st.alloc(x), ()) for x in (e.a if split else (e,))])
        cur = [(s, [])]
        for x in items:
            nxt = []
            for st, done in cur:
                front = [st]
                for j, y in enumerate(done):
                    rest = []
                    for st2 in front:
                        for o in self.apply(st2, mk("ref", fl, ()), parts(st2, x) + parts(st2, y), None, site):
                            if o.k != "ret" or o.v.op != "adt":
                                return None
                            if o.v.a[1] == 0:
                                nxt.append((o.s, done[:j] + [x] + done[j:]))
                            else:
                                rest.append(o.s)
                    front = rest
                nxt += [(st2, done + [x]) for st2 in front]
            cur = nxt
        return cur

    def m_IndexMap_sort_by(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        m = self.ip.load(s, loc)
        es = self.entries_of(m)
        r = None
        if es is not None and len(es) <= 4:
            r = self.cmp_forks(s.copy(), a[1], es, site, True)
        if r is None:
            self.ip.store(s, loc, unk("sort_by", m))
            return self.ret(s, UNIT)
        res = []
        for st, xs in r:
            self.ip.store(st, loc, seq([("e", e) for e in xs]))
            res.append((st, UNIT))
        return self.outs(*res)

    m_IndexMap_sort_unstable_by = m_IndexMap_sort_by

    def m_IndexMap_sort_keys(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        m = self.ip.load(s, loc)
        es = self.entries_of(m)
        if es is None or len(es) > 4:
            self.ip.store(s, loc, mk("app", "sortk", m, m.a[-1] if self.ip.is_map(m) else -1))
            return self.ret(s, UNIT)
        res = []
        for st, xs in self.sorted_forks(s, [(e.a[0], e) for e in es]):
            self.ip.store(st, loc, seq([("e", e) for e in xs]))
            res.append((st, UNIT))
        return self.outs(*res)

    m_IndexMap_sort_unstable_keys = m_IndexMap_sort_keys

    def m_slice_sort(self, s, f, a, dti, site):
        """A permutation of the elements; the entries of a map have no order."""
        loc = self.loc(s, a[0])
        v = self.ip.load(s, loc)
        if self.ip.is_map(v):
            return self.ret(s, UNIT)
        keyed = None
        if v.op == "seq" and all(p[0] == "e" for p in v.a) and len(v.a) <= 4:
            name = f.get("name") or f["path"].split("::")[-1]
            if "by_key" in name or "by_cached_key" in name:
                fn = s.alloc(a[1])
                keyed = []
                for p in v.a:
                    os_ = self.apply(s, mk("ref", fn, ()), [mk("ref", s.alloc(p[1]), ())], None, site)
                    if len(os_) != 1 or os_[0].k != "ret":
                        keyed = None
                        break
                    s = os_[0].s
                    keyed.append((self.ip.deep(s, os_[0].v), p[1]))
            elif name in ("sort", "sort_unstable"):
                keyed = [(p[1].a[0] if p[1].op == "tup" else p[1], p[1]) for p in v.a]
            if keyed is not None and not all(k.op in ("int", "lin", "sym", "fld", "elem", "wrap") for k, _ in keyed):
                keyed = None
        if v.op == "seq" and all(p[0] == "e" for p in v.a) and len(v.a) <= 4 and (f.get("name") or f["path"].split("::")[-1]) in ("sort_by", "sort_unstable_by"):
            r = self.cmp_forks(s.copy(), a[1], [p[1] for p in v.a], site)
            if r is None:
                self.ip.store(s, loc, unk("sort_by", v))
                return self.ret(s, UNIT)
            res = []
            for st, xs in r:
                self.ip.store(st, loc, seq([("e", e) for e in xs]))
                res.append((st, UNIT))
            return self.outs(*res)
        if keyed is not None:
            res = []
            for st, xs in self.sorted_forks(s, keyed):
                self.ip.store(st, loc, seq([("e", e) for e in xs]))
                res.append((st, UNIT))
            return self.outs(*res)
        self.ip.store(s, loc, mk("app", "perm", v, -1))
        return self.ret(s, UNIT)

    m_slice_sort_by = m_slice_sort_by_key = m_slice_sort_unstable = m_slice_sort_unstable_by = m_slice_sort
    m_slice_sort_unstable_by_key = m_slice_sort_by_cached_key = m_slice_sort

    def es(self, v):
        return v.op == "seq" and all(p[0] == "e" for p in v.a)

    def slice_edge(self, s, a, end):
        v, p = self.ip.deep(s, self.val(s, a[0])), self.ip.deep(s, self.val(s, a[1]))
        n, k = seq_len(v), seq_len(p)
        if v.op not in ("seq", "kseq") or not isint(k):
            return None
        res = []
        for short, st in self.fork(s, self.ip.lt0(s.f, sub(n, k))):
            if short:
                res.append((st, ZERO))
                continue
            q = mk_slice(v, sub(n, k), n) if end else mk_slice(v, ZERO, k)
            for eq, s2 in self.fork(st, self.ip.mk_eq(st.f, seq((q,)), p)):
                res.append((s2, ONE if eq else ZERO))
        return self.outs(*res)

    def m_slice_starts_with(self, s, f, a, dti, site):
        return self.slice_edge(s, a, False)

    def m_slice_ends_with(self, s, f, a, dti, site):
        return self.slice_edge(s, a, True)

    def m_slice_reverse(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        v = self.ip.load(s, loc)
        if v.op == "kseq":
            self.ip.store(s, loc, kseq(bytes(reversed(v.a[0]))))
        else:
            self.ip.store(s, loc, seq(tuple(reversed(v.a))) if self.es(v) else mk("app", "rev", v, -1))
        return self.ret(s, UNIT)

    def m_Vec_dedup(self, s, f, a, dti, site):
        """without elements equal to their predecessor"""
        loc = self.loc(s, a[0])
        v = self.ip.load(s, loc)
        if v.op == "kseq" or not self.es(v) or len(v.a) > 3:
            if v is not EMPTY:
                self.ip.store(s, loc, mk("app", "dedup", v, -1))
            return self.ret(s, UNIT)
        todo = [(s, [])]
        for p in v.a:
            nxt = []
            for st, out in todo:
                if not out:
                    nxt.append((st, [p]))
                    continue
                c = self.ip.mk_eq(st.f, self.ip.deep(st, out[-1][1]), self.ip.deep(st, p[1]))
                for eq, s2 in self.fork(st, c):
                    nxt.append((s2, out if eq else out + [p]))
            todo = nxt
        res = []
        for st, out in todo:
            self.ip.store(st, loc, seq(tuple(out)))
            res.append((st, UNIT))
        return self.outs(*res)

    def m_HashMap_get(self, s, f, a, dti, site):
        m = self.unmut(s, self.ip.deep(s, self.val(s, a[0])))
        k = self.ip.deep(s, a[1])
        res = []
        vti = self.ty[self.ty[dti]["args"][0]].get("t", -1)
        for st, i in self.map_find(s, m, k):
            if i is not None:
                res.append((st, self.some(dti, mk("ref", ("O", self.map_val(m, k, i, vti)), ()))))
            else:
                res.append((st, self.none(dti)))
        return self.outs(*res)

    m_BTreeMap_get = m_IndexMap_get = m_HashMap_get

    def m_HashMap_get_mut(self, s, f, a, dti, site):
        loc = self.loc(s, a[0])
        m = self.unmut(s, self.ip.load(s, loc))
        self.ip.store(s, loc, m)
        k = self.ip.deep(s, a[1])
        res = []
        for st, i in self.map_find(s, m, k):
            if i is None:
                res.append((st, self.none(dti)))
            else:
                res.append((st, self.some(dti, self.slot(st, loc, m, k, i, -1))))
        return self.outs(*res)

    m_BTreeMap_get_mut = m_IndexMap_get_mut = m_HashMap_get_mut

    def m_HashMap_contains_key(self, s, f, a, dti, site):
        m = self.unmut(s, self.ip.deep(s, self.val(s, a[0])))
        return self.outs(*[(st, I(0 if i is None else 1)) for st, i in self.map_find(s, m, self.ip.deep(s, a[1]))])

    m_BTreeMap_contains_key = m_IndexMap_contains_key = m_HashSet_contains = m_HashMap_contains_key

    def m_HashMap_entry(self, s, f, a, dti, site, ordered=False):
        m = self.unmut(s, self.ip.load(s, self.loc(s, a[0])))
        self.ip.store(s, self.loc(s, a[0]), m)
        k = self.ip.deep(s, a[1])
        t = self.ty[dti]
        names = [v["n"] for v in t["v"]]
        res = []
        for st, i in self.map_find(s, m, k):
            vi = names.index("Vacant" if i is None else "Occupied")
            e = mk("ment", a[0], k, i, ordered, t["v"][vi]["f"][0][1])
            res.append((st, self.ip.adt(dti, vi, e)))
        return self.outs(*res)

    m_IndexMap_entry = m_HashMap_entry

    def m_BTreeMap_entry(self, s, f, a, dti, site):
        return self.m_HashMap_entry(s, f, a, dti, site, True)

    def ent(self, s, v):
        v = self.val(s, v)
        if v.op == "adt":
            v = v.a[2]
        return v

    def slot(self, s, loc, m, k, i, vti):
        """reference to the value of an entry"""
        if isinstance(i, int):
            return mk("ref", loc[0], loc[1] + (("i", I(i), None), ("f", None, 1, -1)))
        # writes through this reference go to a fresh cell tied to the map
        c = s.alloc(self.map_get(m, k, vti))
        self.ip.store(s, loc, mk("mmut", m, k, mk("ref", c, ())))
        return mk("ref", c, ())

    def m_OccupiedEntry_get(self, s, f, a, dti, site):
        e = self.ent(s, a[0])
        m = self.ip.load(s, self.loc(s, e.a[0]))
        return self.ret(s, mk("ref", ("O", self.map_val(m, e.a[1], e.a[2], self.ty[dti]["t"])), ()))

    def m_OccupiedEntry_get_mut(self, s, f, a, dti, site):
        e = self.ent(s, a[0])
        loc = self.loc(s, e.a[0])
        return self.ret(s, self.slot(s, loc, self.ip.load(s, loc), e.a[1], e.a[2], self.ty[dti]["t"]))

    m_OccupiedEntry_into_mut = m_OccupiedEntry_get_mut

    def m_OccupiedEntry_insert(self, s, f, a, dti, site):
        e = self.ent(s, a[0])
        loc = self.loc(s, e.a[0])
        r = self.slot(s, loc, self.ip.load(s, loc), e.a[1], e.a[2], dti)
        old = self.val(s, r)
        self.ip.store(s, self.loc(s, r), self.ip.deep(s, a[1]))
        return self.ret(s, old)

    def m_OccupiedEntry_remove(self, s, f, a, dti, site):
        e = self.ent(s, a[0])
        loc = self.loc(s, e.a[0])
        m = self.ip.load(s, loc)
        i = e.a[2]
        self.ip.store(s, loc, mk("seq", *(m.a[:i] + m.a[i + 1 :])) if isinstance(i, int) else mk("mrem", m, e.a[1]))
        return self.ret(s, self.map_val(m, e.a[1], i, dti))

    def vacant(self, s, e, v):
        loc = self.loc(s, e.a[0])
        m = self.ip.load(s, loc)
        res = []
        for s2, m2, j in self.map_put(s, m, e.a[1], v, None, e.a[3]):
            self.ip.store(s2, loc, m2)
            if j == "?":
                c = s2.alloc(v)
                self.ip.store(s2, loc, mk("mmut", m, e.a[1], mk("ref", c, ()), 1))
                res.append((s2, mk("ref", c, ())))
            else:
                res.append((s2, self.slot(s2, loc, m2, e.a[1], j, -1)))
        return res

    def m_VacantEntry_insert(self, s, f, a, dti, site):
        return self.outs(*self.vacant(s, self.ent(s, a[0]), self.ip.deep(s, a[1])))

    def m_Entry_or_default(self, s, f, a, dti, site, v=None):
        x = self.val(s, a[0])
        e = self.ent(s, a[0])
        if x.op != "adt" or e.op != "ment":
            return None
        loc = self.loc(s, e.a[0])
        if self.ip.variant_name(x.a[0], x.a[1]) == "Occupied":
            return self.ret(s, self.slot(s, loc, self.ip.load(s, loc), e.a[1], e.a[2], self.ty[dti]["t"]))
        if v is None:
            t = self.ty[self.ty[dti]["t"]]
            v = ZERO if t["k"] in ("int", "bool") else EMPTY
        return self.outs(*self.vacant(s, e, v))

    def m_Entry_or_insert(self, s, f, a, dti, site):
        return self.m_Entry_or_default(s, f, a, dti, site, self.ip.deep(s, a[1]))

    def m_Entry_or_insert_with(self, s, f, a, dti, site):
        x = self.val(s, a[0])
        if x.op == "adt" and self.ip.variant_name(x.a[0], x.a[1]) == "Occupied":
            return self.m_Entry_or_default(s, f, a, dti, site)
        res = []
        for o in self.apply(s, a[1], [], self.ty[dti]["t"], site):
            if o.k == "ret":
                res += self.m_Entry_or_default(o.s, f, a, dti, site, o.v)
            else:
                res.append(o)
        return res

    def m_HashMap_into_values(self, s, f, a, dti, site):
        m = self.ip.deep(s, a[0])
        return self.ret(s, self.ip.adt(dti, 0, m, ZERO, seq_len(m)))

    m_HashMap_values = m_IndexMap_values = m_IndexMap_into_values = m_BTreeMap_values = m_BTreeMap_into_values = (
        m_HashMap_into_values
    )

    # ---------------------------------------------------------------- io
    def ioerr(self, s, dti, what):
        s.tags += (what,)
        return self.err(dti, mk("opaque", "io::Error"))

    def t_Write(self, s, f, a, dti, site, name, st, foreign, p):
        t = self.ty[st]
        if name in ("write_all",):
            return self.write_all(s, self.loc(s, a[0]), st, a[1], dti, site)
        if name == "flush":
            return self.ret(s, self.ok(dti, UNIT))
        if name == "write":
            # partial write: count is an arbitrary prefix
            r = self.write_all(s, self.loc(s, a[0]), st, mk("partial", a[1]), dti, site)
            return self.ret(s, unk("partial write"))
        if name == "by_ref":
            return self.ret(s, a[0])
        return None

    def write_all(self, s, loc, st, data, dti, site):
        t = self.ty[st]
        if t["k"] == "ref":
            v = self.ip.load(s, loc)
            return self.write_all(s, self.loc(s, v), t["t"], data, dti, site)
        p = t.get("path", "")
        d = self.val(s, data)
        d = self.ip.deep(s, d)
        if self.ip.load(s, loc).op == "seq" and p != "std::vec::Vec":  # the sink under analysis
            bad = s.copy()
            self.ip.store(s, loc, seq((("sp", self.ip.load(s, loc)), ("sp", d))))
            return self.outs((s, self.ok(dti, UNIT)), (bad, self.ioerr(bad, dti, "io")))
        if p == "std::vec::Vec":
            self.ip.store(s, loc, seq((("sp", self.ip.load(s, loc)), ("sp", d))))
            return self.ret(s, self.ok(dti, UNIT))
        if p == "std::io::Cursor":
            v = self.ip.load(s, loc)
            inner, pos = v.a[2], v.a[3]
            if pos.op == "seq":
                pos = seq_len(pos)
            cont = self.val(s, inner) if inner.op == "ref" else inner
            n = seq_len(cont)
            if pos is CUR_END or pos is n or s.f.value(sub(pos, n)) == 0:
                nv = seq((("sp", cont), ("sp", d)))
                np = CUR_END
            else:
                nv = mk("overwrite", cont, pos, d)
                np = add(pos, seq_len(d))
            if inner.op == "ref":
                self.ip.store(s, self.loc(s, inner), nv)
                self.ip.store(s, loc, self.ip.adt(v.a[0], 0, inner, np))
            else:
                self.ip.store(s, loc, self.ip.adt(v.a[0], 0, nv, np))
            return self.ret(s, self.ok(dti, UNIT))
        # outermost sink: may fail
        bad = s.copy()
        self.ip.store(s, loc, seq((("sp", self.ip.load(s, loc)), ("sp", d))))
        return self.outs((s, self.ok(dti, UNIT)), (bad, self.ioerr(bad, dti, "io")))

    def m_Cursor_new(self, s, f, a, dti, site):
        v = a[0]
        c = self.val(s, v) if v.op == "ref" else v
        if c is EMPTY:
            # positioned at the end of the (empty) buffer: writes append
            return self.ret(s, self.ip.adt(dti, 0, v, CUR_END))
        if v.op == "ref":
            return self.ret(s, self.ip.adt(dti, 0, v, EMPTY))
        if v.op == "seq":
            return self.ret(s, self.ip.adt(dti, 0, v, ZERO))
        return self.ret(s, self.ip.adt(dti, 0, v, EMPTY))

    def cur_pos(self, v, s=None):
        if v.a[3] is CUR_END:
            return seq_len(self.val(s, v.a[2]) if v.a[2].op == "ref" else v.a[2])
        return seq_len(v.a[3]) if v.a[3].op == "seq" else v.a[3]

    def m_Cursor_position(self, s, f, a, dti, site):
        v = self.val(s, a[0])
        return self.ret(s, self.cur_pos(v, s) if v.op == "adt" else mk("app", "curpos", v, dti))

    def m_Cursor_get_ref(self, s, f, a, dti, site):
        l = self.loc(s, a[0])
        v = self.val(s, a[0])
        if v.op == "adt" and v.a[2].op == "ref":
            return self.ret(s, v.a[2])
        return self.ret(s, mk("ref", l[0], l[1] + (("f", None, 0, -1),)))

    def m_Cursor_into_inner(self, s, f, a, dti, site):
        v = a[0]
        return self.ret(s, v.a[2] if v.op == "adt" else mk("fld", v, None, 0, dti))

    def t_Seek(self, s, f, a, dti, site, name, st, foreign, p):
        if name == "seek" and self.ty.path(st) == "std::io::Cursor":
            loc = self.loc(s, a[0])
            v = self.ip.load(s, loc)
            sk = a[1]
            if v.op == "adt" and sk.op == "adt" and self.ip.variant_name(sk.a[0], sk.a[1]) == "Current":
                off = sk.a[2]
                pos = self.cur_pos(v, s)
                if v.a[3] is CUR_END:
                    nv = add(pos, off)
                elif v.a[3].op == "seq":
                    nv = seq((("sp", v.a[3]), ("rep", mk("opaque", "skip"), off)))
                    # keep as a skip piece even for constant offsets
                    nv = mk("seq", *(v.a[3].a + (("skip", off),)))
                else:
                    nv = add(v.a[3], off)
                self.ip.store(s, loc, self.ip.adt(v.a[0], 0, v.a[2], nv))
                return self.ret(s, self.ok(dti, add(pos, off)))
        return None

    def t_Read(self, s, f, a, dti, site, name, st, foreign, p):
        if name == "by_ref":
            return self.ret(s, a[0])
        if name == "chain":
            return self.ret(s, self.ip.adt(dti, 0, a[0], a[1], ZERO))
        if name == "take":
            return self.ret(s, self.ip.adt(dti, 0, a[0], a[1]))
        if name == "read_exact":
            return self.read_exact(s, self.loc(s, a[0]), st, a[1], dti, site)
        if name == "read_to_end":
            return self.read_to_end(s, self.loc(s, a[0]), st, a[1], dti, site)
        if name == "read":
            return self.ret(s, unk("partial read"))
        return None

    def fresh_rd(self, s, n):
        """symbol for n freshly read bytes and its stream piece"""
        key = (s.ctx, s.fresh())
        kn = s.f.value(n)
        itk = tuple(mk("it", u) for u in s.ctx)
        if kn is not None and 1 <= kn <= 16:
            sym = mk("rd", str(key), kn, *itk, self.uty(kn))
            return seq((("be", kn, sym),)), ("be", kn, sym)
        sym = mk("rdb", str(key), n, *itk)
        return sym, ("sp", sym)

    def uty(self, n):
        for i, t in enumerate(self.ty.t):
            if t["k"] == "int" and not t["signed"] and t["bits"] == 8 * n:
                return i
        # range lookups need a type; fall back to a tuple encoding
        return -n

    def within(self, s, content, consumed):
        """what was taken from a slice fits in it"""
        try:
            s.f.bound(sub(seq_len(content), seq_len(consumed)), 0, 1 << 60)
        except Infeasible:
            pass

    def read_bytes(self, s, loc, st, n, site):
        """[(state, bytes|None)] : None = failure"""
        ip = self.ip
        t = self.ty[st]
        if t["k"] == "ref" and self.ty[t["t"]]["k"] != "slice":
            v = ip.load(s, loc)
            return self.read_bytes(s, self.loc(s, v), t["t"], n, site)
        p = t.get("path", "")
        v = ip.load(s, loc)
        if v.op == "src":
            return self.src_take(s, loc, n)
        if t["k"] == "ref" and v.op == "ref":
            c0 = self.val(s, v)
            if c0.op == "seq":
                ip.store(s, loc, mk("src", *[to_lp(q) for q in c0.a]))
                return self.src_take(s, loc, n)
        if p == "std::io::Cursor" and v.op == "adt" and v.a[3].op != "src":
            c0 = self.val(s, v.a[2])
            if c0.op == "seq" and c0.a and v.a[3] in (EMPTY, ZERO) and all(q[0] in ("k", "be") for q in c0.a):
                if v.a[3] is EMPTY:
                    ip.store(s, loc, ip.adt(v.a[0], 0, v.a[2], ZERO))
                    v = ip.load(s, loc)
            elif c0.op == "seq" and c0.a and v.a[3] in (EMPTY, ZERO):
                ip.store(s, loc, ip.adt(v.a[0], 0, v.a[2], mk("src", *[to_lp(q) for q in c0.a])))
                v = ip.load(s, loc)
        if p == "std::io::Cursor" and v.op == "adt" and v.a[3].op == "src":
            return self.src_take(s, (loc[0], loc[1] + (("f", None, 1, -1),)), n)
        if t["k"] == "ref":  # &[u8]
            if v.op == "adv":
                base, cons = v.a
            else:
                base, cons = v, EMPTY
            content = self.val(s, base)
            if content.op == "seq" and cons is EMPTY:
                # known content: slice it
                m = seq_len(content)
                res = []
                for c, s2 in self.fork(s, ip.lt0(s.f, sub(m, n))):
                    if c:
                        s2.tags += ("eof",)
                        res.append((s2, None))
                    else:
                        l = self.loc(s2, base)
                        ip.store(s2, loc, self.slice_loc(l, n, m))
                        res.append((s2, ip.slice_of(content, ZERO, n)))
                return res
            bad = s.copy()
            bad.tags += ("eof",)
            b, piece = self.fresh_rd(s, n)
            c = seq((("sp", cons), piece))
            ip.store(s, loc, mk("adv", base, c))
            self.within(s, content, c)
            return [(s, b), (bad, None)]
        if p == "std::io::Cursor":
            content = self.val(s, v.a[2])
            if v.a[3].op == "seq":
                bad = s.copy()
                bad.tags += ("eof",)
                b, piece = self.fresh_rd(s, n)
                ip.store(s, loc, ip.adt(v.a[0], 0, v.a[2], mk("seq", *(v.a[3].a + (piece,)))))
                return [(s, b), (bad, None)]
            m = seq_len(content)
            pos = self.cur_pos(v, s)
            res = []
            for c, s2 in self.fork(s, ip.lt0(s.f, sub(m, add(pos, n)))):
                if c:
                    s2.tags += ("eof",)
                    res.append((s2, None))
                else:
                    ip.store(s2, loc, ip.adt(v.a[0], 0, v.a[2], add(pos, n)))
                    res.append((s2, ip.slice_of(content, pos, add(pos, n))))
            return res
        if p == "std::io::Chain":
            # first reader exhausted?
            args = t["args"]
            first, second, done = v.a[2], v.a[3], v.a[4]
            if s.f.value(done) == 0:
                rest = self.reader_rest(s, first, args[0])
                kn = s.f.value(n)
                if rest is not None and s.f.value(rest) is not None and kn is not None:
                    if s.f.value(rest) >= kn > 0:
                        return self.read_bytes(s, self.sub_loc(loc, 0, args[0], st), args[0], n, site)
                    if s.f.value(rest) == 0:
                        ip.store(s, loc, ip.adt(v.a[0], 0, first, second, ONE))
                        return self.read_bytes(s, loc, st, n, site)
                return [(s, unk("chain"))]
            return self.read_bytes(s, self.sub_loc(loc, 1, args[1], st), args[1], n, site)
        if p == "std::io::Take":
            return [(s, unk("take"))]
        # outermost source
        bad = s.copy()
        bad.tags += ("io",)
        b, piece = self.fresh_rd(s, n)
        ip.store(s, loc, mk("seq", *(self.consumed(v).a + (piece,))))
        return [(s, b), (bad, None)]

    # ---- sources with known content (piecewise)
    def src_norm(self, s, v):
        while v.a and v.a[0][0] == "lp" and s.f.range(sub(v.a[0][4], v.a[0][2]))[0] >= 0:
            v = mk("src", *v.a[1:])
        return v

    def src_open(self, s, loc):
        """make the front piece a non-loop piece: [(state)]"""
        ip = self.ip
        v = ip.load(s, loc)
        if v.op != "src" or not v.a or v.a[0][0] != "lp":
            return [s]
        p = v.a[0]
        _, uid, n, alts, k = p
        res = []
        for c, s2 in self.fork(s, ip.lt0(s.f, sub(k, n))):
            if not c:
                ip.store(s2, loc, mk("src", *v.a[1:]))
                res += self.src_open(s2, loc)
                continue
            for gs, ps in alts:
                s3 = s2.copy()
                m = {mk("it", uid): k}
                try:
                    ip.apply_guards(s3.f, gs, m)
                except Infeasible:
                    continue
                memo = {}
                body = [q for x in ps for q in map_piece(x, lambda y: ip._subst(y, m, s3.f, memo))]
                body = list(seq(body).a) if seq(body).op == "seq" else [("sp", seq(body))]
                rest = mk("src", *([to_lp(q) for q in body] + [("lp", uid, n, alts, add(k, ONE))] + list(v.a[1:])))
                ip.store(s3, loc, rest)
                res += self.src_open(s3, loc) if not body else [s3]
        return res

    def src_take(self, s, loc, n, fuel=40):
        """take n bytes from a known source: [(state, bytes|None)]"""
        ip = self.ip
        if s.f.value(n) == 0:
            return [(s, EMPTY)]
        v = ip.load(s, loc)
        # whole prefix of pieces with exactly this length (may include loops)
        if v.op == "src":
            pos = ZERO
            for i, p in enumerate(v.a):
                if p[0] == "lp" and not (isint(p[4]) and p[4].a[0] == 0):
                    break
                pos = add(pos, piece_len(p))
                if s.f.value(sub(pos, n)) == 0:
                    ip.store(s, loc, mk("src", *v.a[i + 1 :]))
                    return [(s, seq([from_lp(q) for q in v.a[: i + 1]]))]
                if s.f.range(sub(n, pos))[1] < 0:
                    break
        res = []
        for s2 in self.src_open(s, loc):
            v = ip.load(s2, loc)
            if v.op != "src":
                res.append((s2, mk("bad", "desynchronised repetition")))
                continue
            res += self.src_take1(s2, loc, n, v, fuel)
        return res

    def src_take1(self, s, loc, n, v, fuel):
        ip = self.ip
        if not v.a:
            s.tags += ("eof",)
            return [(s, None)]
        p = v.a[0]
        rest = v.a[1:]
        l = piece_len(p)
        d = s.f.value(sub(l, n))
        if d == 0:
            ip.store(s, loc, mk("src", *rest))
            return [(s, seq((from_lp(p),)))]
        kn, kl = s.f.value(n), s.f.value(l)
        if p[0] == "nt" and fuel > 0 and self.nt_expand is not None:
            res = []
            for s2, ps in self.nt_expand(s, p):
                ip.store(s2, loc, mk("src", *([to_lp(q) for q in ps] + list(rest))))
                res += self.src_take(s2, loc, n, fuel - 1)
            return res
        if kn is not None and kl is not None:
            if kl < kn:
                ip.store(s, loc, mk("src", *rest))
                res = []
                for s2, b in self.src_take(s, loc, I(kn - kl), fuel):
                    res.append((s2, None if b is None else b if b.op == "bad" else seq((from_lp(p), ("sp", b)))))
                return res
            # split
            if p[0] == "k":
                ip.store(s, loc, mk("src", ("k", p[1][kn:]), *rest))
                return [(s, kseq(p[1][:kn]))]
            els = ip.elements(s, mk("seq", p), None)
            if els is not None:
                tail = list(ip.mkseq_bytes(els[kn:]).a)
                ip.store(s, loc, mk("src", *(tail + list(rest))))
                return [(s, ip.mkseq_bytes(els[:kn]))]
        if p[0] == "sp":
            q1, q2 = mk_slice(p[1], ZERO, n), mk_slice(p[1], n, seq_len(p[1]))
            res = []
            for c, s2 in self.fork(s, ip.lt0(s.f, sub(l, n))):
                if c:
                    s2.tags += ("eof?",)
                    res.append((s2, None))
                else:
                    ip.store(s2, loc, mk("src", q2, *rest))
                    res.append((s2, seq((q1,))))
            return res
        if p[0] == "sl":
            q1 = ("sl", p[1], p[2], add(p[2], n))
            q2 = ("sl", p[1], add(p[2], n), p[3])
            res = []
            for c, s2 in self.fork(s, ip.lt0(s.f, sub(l, n))):
                if c:
                    s2.tags += ("eof?",)
                    res.append((s2, None))
                else:
                    ip.store(s2, loc, mk("src", q2, *rest))
                    res.append((s2, seq((q1,))))
            return res
        return [(s, mk("bad", "read of %s bytes does not align with %s" % (show(n), show_piece(p)[:80])))]

    nt_expand = None

    def consumed(self, v):
        return v if v.op == "seq" else EMPTY

    def reader_rest(self, s, v, ti):
        t = self.ty[ti]
        if t["k"] == "ref":
            if self.ty[t["t"]]["k"] in ("slice", "array"):
                if v.op == "adv":
                    return sub(seq_len(self.val(s, v.a[0])), seq_len(v.a[1]))
                return seq_len(self.val(s, v))
            return self.reader_rest(s, self.val(s, v), t["t"])
        return None

    def read_exact(self, s, loc, st, buf, dti, site):
        n = seq_len(self.val(s, buf))
        res = []
        for s2, b in self.read_bytes(s, loc, st, n, site):
            if b is None:
                res.append((s2, self.err(dti, mk("opaque", "io::Error"))))
            else:
                self.ip.store(s2, self.loc(s2, buf), b)
                res.append((s2, self.ok(dti, UNIT)))
        return self.outs(*res)

    def read_to_end(self, s, loc, st, buf, dti, site):
        t = self.ty[st]
        if t["k"] == "ref" and self.ty[t["t"]]["k"] != "slice":
            return self.read_to_end(s, self.loc(s, self.ip.load(s, loc)), t["t"], buf, dti, site)
        v = self.ip.load(s, loc)
        if t["k"] == "ref" and v.op == "ref" and self.val(s, v).op == "seq":
            v = mk("src", *[to_lp(q) for q in self.val(s, v).a])
        if v.op == "src":
            d = seq([from_lp(q) for q in v.a])
            self.ip.store(s, loc, mk("src"))
            bl = self.loc(s, buf)
            self.ip.store(s, bl, seq((("sp", self.ip.load(s, bl)), ("sp", d))))
            return self.ret(s, self.ok(dti, seq_len(d)))
        bad = s.copy()
        key = (s.ctx, s.fresh())
        n = mk("app", "restlen", str(key), self.ty_usize())
        sym = mk("rdrest", str(key), n)
        v = self.ip.load(s, loc)
        piece = ("sp", sym)
        if t["k"] == "ref":
            base, cons = v.a if v.op == "adv" else (v, EMPTY)
            c = mk("seq", *(cons.a + (piece,)))
            self.ip.store(s, loc, mk("adv", base, c))
            rest = sub(seq_len(self.val(s, base)), seq_len(c))
            try:
                s.f.bound(rest, 0, 0)
            except Infeasible:
                pass
        elif t.get("path") == "std::io::Cursor":
            self.ip.store(s, loc, self.ip.adt(v.a[0], 0, v.a[2], mk("seq", *(v.a[3].a + (piece,)))))
        else:
            self.ip.store(s, loc, mk("seq", *(self.consumed(v).a + (piece,))))
        bl = self.loc(s, buf)
        self.ip.store(s, bl, seq((("sp", self.ip.load(s, bl)), ("sp", sym))))
        return self.outs((s, self.ok(dti, n)), (bad, self.ioerr(bad, dti, "io")))

    def ty_usize(self):
        for i, t in enumerate(self.ty.t):
            if t["s"] == "usize":
                return i
        return -1
