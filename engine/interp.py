"""Path-sensitive abstract interpreter over exported MIR (no code is executed)."""
import json, sys
from terms import *
from state import *

sys.setrecursionlimit(20000)

TRANSPARENT = {
    "wtf_8::Wtf8Str", "wtf_8::Wtf8String", "wtf_8::alloc_impl::Wtf8String", "std::string::String", "std::boxed::Box",
    "std::ptr::Unique", "std::ptr::NonNull", "core::ptr::unique::Unique",
    "std::borrow::Cow", "std::mem::ManuallyDrop", "std::mem::MaybeUninit", "std::sync::Arc",
    "std::vec::Vec", "std::rc::Rc", "std::mem::MaybeDangling", "core::mem::maybe_dangling::MaybeDangling",
}


class Budget(Exception):
    pass


class Types:
    def __init__(self, types):
        self.t = types

    def __getitem__(self, i):
        return self.t[i]

    def static_ne(self, key):
        """variants a well-formed value never has (preconditions of the analysis)"""
        return frozenset()

    def int_range(self, i):
        t = self.t[i]
        k = t["k"]
        if k == "int":
            b = t["bits"]
            return (-(1 << b - 1), (1 << b - 1) - 1) if t["signed"] else (0, (1 << b) - 1)
        if k == "bool":
            return (0, 1)
        if k == "char":
            return (0, 0x10FFFF)
        return None

    def discrs(self, i):
        return [k if v.get("d") is None else int(v["d"]) for k, v in enumerate(self.t[i]["v"])]

    def is_bytes(self, i):
        t = self.t[i]
        return t["k"] == "int" and t["bits"] == 8

    def elem(self, i):
        """element type of a sequence type"""
        t = self.t[i]
        k = t["k"]
        if k in ("slice", "array"):
            return t["t"]
        if k in ("ref", "ptr"):
            return self.elem(t["t"])
        if k == "adt":
            p = t["path"]
            if p in ("std::vec::Vec", "std::vec::IntoIter", "std::slice::Iter"):
                return t["args"][0]
            if p in ("std::boxed::Box", "std::sync::Arc", "std::borrow::Cow"):
                return self.elem(t["args"][0])
        return None

    def transparent(self, i):
        t = self.t[i]
        return t["k"] == "adt" and t["path"] in TRANSPARENT

    def path(self, i):
        t = self.t[i]
        return t.get("path") if t["k"] == "adt" else None

    def strip(self, i):
        """look through references and transparent owners"""
        while True:
            t = self.t[i]
            if t["k"] in ("ref", "ptr"):
                i = t["t"]
            elif t["k"] == "adt" and t["path"] in (
                "std::boxed::Box", "std::sync::Arc", "std::borrow::Cow", "std::rc::Rc",
            ):
                i = t["args"][0]
            else:
                return i

    def s(self, i):
        return self.t[i]["s"]


class Out:
    __slots__ = ("k", "s", "v", "src")

    def __init__(self, k, s, v):
        self.k, self.s, self.v = k, s, v


class Loop:
    __slots__ = ("header", "blocks")


OPAQUE_CRATES = ("indexmap", "hashbrown", "ahash", "equivalent")


class Interp:
    trace_loops = False
    unroll_cap = 2000
    unroll = 0  # > 0: follow that many iterations even if the loop may end earlier
    MAXUNROLL = 260
    intercept = {}    # path of a function -> contract used instead of its body
    fork_asserts = True  # follow failing assertions as panics
    real = ()         # crates whose functions are always interpreted, never modelled
    loop_hook = None  # (frame, header, state at the head, body) -> outs, or None for the usual summary

    def __init__(self, mir, max_steps=3_000_000):
        self.mir = mir
        self.ty = Types(mir["types"])
        self.insts = mir["insts"]
        self.cfg = {}
        self.stack = []
        self.fns = []
        self.fnix = {}
        self.atoms = []  # list of callables (interp, state, callee, args, dest_ty, site) -> outs|None
        self.loops = {}
        self.heap_ty = {}  # types of cells the caller provides
        self.obl = {}  # (site, kind) -> [proved, unproved, sample]
        self.unmodelled = {}
        self.steps = 0
        self.max_steps = max_steps
        self.visited = set()
        self.calls_seen = set()
        self.trace_panics = True
        self.nofail = False
        self.casts = {}
        self.assume_lengths = False
        self.cur = None
        from models import Models

        self.models = Models(self)

    # ------------------------------------------------------------ helpers
    def new_state(self):
        return State(self.ty)

    def adt(self, ti, v, *f):
        return mk("adt", ti, v, *f)

    def variant_name(self, ti, v):
        return self.ty[ti]["v"][v]["n"]

    def discr_value(self, ti, v):
        d = self.ty[ti]["v"][v].get("d")
        return v if d is None else int(d)

    def fnterm(self, f):
        k = json.dumps(f, sort_keys=True)
        if k not in self.fnix:
            self.fnix[k] = len(self.fns)
            self.fns.append(f)
        return mk("fn", self.fnix[k])

    # ------------------------------------------------------------ memory
    def cell_load(self, s, c):
        v = s.cells.get(c)
        if v is None:
            if c[0] in ("O", "K"):
                return c[1]
            return mk("undef", str(c))
        return v

    def proj_load(self, s, v, p):
        k = p[0]
        if k == "f":
            return self.field(s, v, p[1], p[2], p[3])
        if k == "i":
            return self.elem_at(s, v, p[1], p[2])
        if k == "sl":
            return seq((mk_slice(v, p[1], p[2]),)) if v.op in ("seq",) else self.slice_of(v, p[1], p[2])
        raise AssertionError(p)

    def slice_of(self, v, a, b):
        q = mk_slice(v, a, b)
        return q[1] if q[0] == "sp" else mk("seq", q)

    def field(self, s, v, variant, i, ty):
        op = v.op
        if op == "adt":
            if variant is None or v.a[1] == variant:
                if 2 + i < len(v.a):
                    return v.a[2 + i]
            return unk("badfield")
        if op == "tup":
            return v.a[i] if i < len(v.a) else unk("badfield")
        if op == "clo":
            return v.a[1 + i] if 1 + i < len(v.a) else unk("badfield")
        if op == "ref":
            # projecting inside a pointer wrapper (Box/NonNull): same pointer
            return v
        return mk("fld", v, variant, i, ty)

    def load(self, s, loc):
        c, ps = loc
        v = self.cell_load(s, c)
        for p in ps:
            v = self.proj_load(s, v, p)
        return v

    def store(self, s, loc, new):
        c, ps = loc
        if not ps:
            s.cells[c] = new
            return
        s.cells[c] = self.upd(s, self.cell_load(s, c), ps, new)

    def upd(self, s, v, ps, new):
        if not ps:
            return new
        p = ps[0]
        if p[0] == "f":
            variant, i = p[1], p[2]
            if v.op not in ("adt", "tup", "clo"):
                v = self.expand(s, v, variant, p)
            if v.op == "adt":
                off = 2
            elif v.op == "tup":
                off = 0
            elif v.op == "clo":
                off = 1
            else:
                return unk("upd")
            a = list(v.a)
            if off + i >= len(a):
                return unk("upd")
            a[off + i] = self.upd(s, a[off + i], ps[1:], new)
            return mk(v.op, *a)
        if p[0] == "i":
            old = self.elem_at(s, v, p[1], p[2])
            return self.set_elem(s, v, p[1], p[2], self.upd(s, old, ps[1:], new))
        if p[0] == "sl":
            n = seq_len(v)
            old = self.slice_of(v, p[1], p[2])
            mid = self.upd(s, old, ps[1:], new)
            return seq((mk_slice(v, ZERO, p[1]), ("sp", mid), mk_slice(v, p[2], n)))
        raise AssertionError(p)

    def expand(self, s, v, variant, p):
        """opaque aggregate -> adt of its fields"""
        ti = p[4] if len(p) > 4 else None
        if ti is None:
            return v
        t = self.ty[ti]
        if t["k"] == "adt":
            vi = variant or 0
            return self.adt(
                ti, vi, *[mk("fld", v, variant, i, f[1]) for i, f in enumerate(t["v"][vi]["f"])]
            )
        if t["k"] == "tuple":
            return mk("tup", *[mk("fld", v, None, i, f) for i, f in enumerate(t["ts"])])
        return v

    def set_elem(self, s, v, idx, ety, new):
        piece = be_piece(1, new) if ety is not None and self.ty.is_bytes(ety) else ("e", new)
        i = s.f.value(idx)
        if v.op == "seq" and i is not None:
            # flatten to elements
            els = self.elements(s, v, ety)
            if els is not None and 0 <= i < len(els):
                els[i] = new
                return self.mkseq(els, ety)
        n = seq_len(v)
        return seq((mk_slice(v, ZERO, idx), piece, mk_slice(v, add(idx, ONE), n)))

    def mkseq_bytes(self, els):
        r = seq([be_piece(1, e) for e in els])
        return r if r.op == "seq" else mk("seq", ("sp", r))

    def mkseq(self, els, ety):
        if ety is not None and self.ty.is_bytes(ety):
            return seq([be_piece(1, e) for e in els])
        return seq([("e", e) for e in els])

    def elements(self, s, v, ety=None, limit=4096):
        """explicit element list or None"""
        if v.op != "seq":
            return None
        out = []
        for p in v.a:
            if p[0] == "k":
                out += [I(x) for x in p[1]]
            elif p[0] == "e":
                out.append(p[1])
            elif p[0] == "be":
                for j in range(p[1]):
                    out.append(self.byte_of(s, p[2], p[1], j))
            elif p[0] == "rep":
                n = s.f.value(p[2])
                if n is None or n > limit:
                    return None
                out += [p[1]] * n
            else:
                return None
            if len(out) > limit:
                return None
        return out

    def byte_of(self, s, x, n, j):
        lo, hi = s.f.range(x)
        if lo >= 0:
            b = s.f.bits(x, 8 * (n - 1 - j), 8)
            if b is not None:
                return b
        return mk("bits", x, 8 * (n - 1 - j), 8)

    def elem_at(self, s, v, idx, ety):
        if v.op == "seq":
            pos = ZERO
            for p in v.a:
                l = piece_len(p)
                d = sub(idx, pos)
                lo, hi = s.f.range(d)
                if s.f.range(sub(d, l))[1] < 0 and lo >= 0:
                    if p[0] == "e":
                        return p[1]
                    if p[0] == "k" and isint(d):
                        return I(p[1][d.a[0]])
                    if p[0] == "k" and len(p[1]) == 1:
                        return I(p[1][0])
                    if p[0] == "be" and s.f.value(d) is not None:
                        return self.byte_of(s, p[2], p[1], s.f.value(d))
                    if p[0] == "rep":
                        return p[1]
                    if p[0] == "sp":
                        return self.elem_at(s, p[1], d, ety)
                    if p[0] == "sl":
                        return self.elem_at(s, p[1], add(d, p[2]), ety)
                    if p[0] == "loop" and len(p[3]) == 1 and len(p[3][0][1]) == 1:
                        q = p[3][0][1][0]
                        m = {mk("it", p[1]): d}
                        if q[0] == "e":
                            return self.subst(q[1], m, s.f)
                        if q[0] == "be" and q[1] == 1:
                            return self.subst(q[2], m, s.f)
                    break
                if s.f.range(sub(d, l))[0] >= 0:
                    pos = add(pos, l)
                    continue
                break
        if self.is_map(v):
            return self.map_entry(v, idx)
        return mk("elem", v, idx, ety if ety is not None else -1)

    MAPS = ("std::collections::HashMap", "std::collections::BTreeMap", "indexmap::IndexMap", "indexmap::map::IndexMap")

    def is_map(self, v):
        return (
            (v.op in ("fld", "sym", "elem", "rd", "mget") or (v.op == "app" and v.a[0] == "sortk"))
            and isinstance(v.a[-1], int)
            and v.a[-1] >= 0
            and self.ty[v.a[-1]].get("path") in self.MAPS
        )

    def map_entry(self, m, pos):
        kt = vt = -1
        if self.is_map(m):
            kt, vt = self.ty[m.a[-1]]["args"][:2]
        e = mk("elem", m, pos, -1)
        return mk("tup", mk("fld", e, None, 0, kt), mk("fld", e, None, 1, vt))

    # ------------------------------------------------------------ substitution
    def subst(self, t, m, f, memo=None):
        memo = {} if memo is None else memo
        return self._subst(t, m, f, memo)

    def _subst(self, t, m, f, memo):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("int", "sym", "fn", "it", "undef"):
            r = t
        else:
            g = lambda x: self._subst(x, m, f, memo)
            if op == "lin":
                r = I(t.a[0])
                for v, k in t.a[1]:
                    r = add(r, scale(g(v), k))
                if any(v.op == "bits" for v, _ in t.a[1]):
                    r = f.join_bits(r)
            elif op == "seq":
                r = seq([q for p in t.a for q in map_piece(p, g)])
            elif op == "src":
                r = mk("src", *[q for p in t.a for q in map_piece(p, g)])
            elif op == "plen":
                r = ZERO
                for q in map_piece(t.a[0], g):
                    r = add(r, piece_len(q))
            else:
                a = tuple(g(x) if isinstance(x, Term) else x for x in t.a)
                if a == t.a:
                    r = t
                else:
                    r = self.rebuild(op, a, f)
        memo[t] = r
        return r

    def rebuild(self, op, a, f):
        if op == "wrap":
            return f.wrap(a[0], a[1], a[2])
        if op == "bits":
            b = f.bits(a[0], a[1], a[2])
            return b if b is not None else mk("bits", *a)
        if op == "len":
            return seq_len(a[0])
        if op == "lt":
            return self.lt0(f, a[0])
        if op == "eq0":
            return self.eq0(f, a[0])
        if op == "eq":
            return self.mk_eq(f, a[0], a[1])
        if op == "not":
            return self.mk_not(a[0])
        if op == "mul":
            return mul(a[0], a[1])
        if op == "fld":
            v = a[0]
            if v.op in ("adt", "tup", "clo"):
                return self.field(None, v, a[1], a[2], a[3])
            return mk(op, *a)
        if op == "elem":
            st = State(self.ty)
            st.f = f
            return self.elem_at(st, a[0], a[1], a[2] if a[2] != -1 else None)
        if op == "discr":
            return self.mk_discr(a[0], a[1])
        if op in ("band", "bor", "bxor"):
            return {"band": f.bitand, "bor": f.bitor, "bxor": f.bitxor}[op](*a)
        if op in ("div", "rem"):
            return self.divrem(f, op, a[0], a[1])
        if op == "app":
            return self.mk_app(*a)
        if op == "and":
            return self.mk_and(a[0], a[1])
        if op == "or":
            return self.mk_or(a[0], a[1])
        if op == "seqslice":
            return self.slice_of(*a)
        return mk(op, *a)

    def mk_app(self, name, *args):
        """uninterpreted functions with their algebraic laws"""
        h = APP_LAWS.get(name)
        if h:
            r = h(self, *args)
            if r is not None:
                return r
        return mk("app", name, *args)

    def mk_discr(self, v, n):
        if v.op == "adt":
            return I(v.a[1])
        if n == 1:
            return ZERO
        return mk("discr", v, n)

    def lt0(self, f, d):
        r = f.decide(mk("lt", d)) if not isint(d) else int(d.a[0] < 0)
        return mk("lt", d) if r is None else I(r)

    def eq0(self, f, d):
        if isint(d):
            return I(d.a[0] == 0)
        c, vs = lin_parts(d)
        if vs[0][1] < 0:
            d = scale(d, -1)
        r = f.decide(mk("eq0", d))
        return mk("eq0", d) if r is None else I(r)

    def mk_not(self, t):
        if isint(t):
            return I(1 - t.a[0])
        if t.op == "not":
            return t.a[0]
        return mk("not", t)

    def mk_and(self, a, b):
        if isint(a):
            return b if a.a[0] else ZERO
        if isint(b):
            return a if b.a[0] else ZERO
        return mk("and", a, b)

    def mk_or(self, a, b):
        if isint(a):
            return ONE if a.a[0] else b
        if isint(b):
            return ONE if b.a[0] else a
        return mk("or", a, b)

    def divrem(self, f, op, a, b):
        if isint(a) and isint(b) and b.a[0]:
            x, y = a.a[0], b.a[0]
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return I(q if op == "div" else x - q * y)
        if isint(b) and b.a[0] > 0:
            n = b.a[0]
            lo, hi = f.range(a)
            if lo >= 0 and n & (n - 1) == 0:
                k = n.bit_length() - 1
                if op == "div":
                    r = f.bits(a, k, max(hi.bit_length() - k, 1)) if hi < INF else None
                else:
                    # drop multiples of n
                    c, vs = lin_parts(a)
                    a2 = mk_lin(c % n, [(v, kk % n) for v, kk in vs])
                    if a2 is not a and f.range(a2)[0] >= 0:
                        return self.divrem(f, op, a2, b)
                    r = f.bits(a, 0, k)
                if r is not None:
                    return r
            if lo >= 0 and hi < n:
                return ZERO if op == "div" else a
        return mk(op, a, b)

    # structural equality of values (deep), as a 0/1 term
    def mk_eq(self, f, a, b):
        if a is b:
            return ONE
        if a.op == "adt" and b.op == "adt":
            if a.a[1] != b.a[1]:
                return ZERO
            r = ONE
            for x, y in zip(a.a[2:], b.a[2:]):
                r = self.mk_and(r, self.mk_eq(f, x, y))
            return r
        if a.op == "tup" and b.op == "tup":
            r = ONE
            for x, y in zip(a.a, b.a):
                r = self.mk_and(r, self.mk_eq(f, x, y))
            return r
        for x, y in ((a, b), (b, a)):
            if x.op == "adt" and y.op not in ("adt", "seq", "unk"):
                ti = x.a[0]
                nv = len(self.ty[ti]["v"])
                r = ONE
                if nv > 1:
                    r = self.eq0(f, sub(self.mk_discr(y, nv), I(x.a[1])))
                for i, (fx, fd) in enumerate(zip(x.a[2:], self.ty[ti]["v"][x.a[1]]["f"])):
                    if self.field_dontcare(f, ti, x.a[1], i, y):
                        continue
                    r = self.mk_and(
                        r, self.mk_eq(f, fx, mk("fld", y, x.a[1] if nv > 1 else None, i, fd[1]))
                    )
                return r
            if x.op == "tup" and y.op in ("fld", "sym", "elem", "rd", "app") and isinstance(y.a[-1], int) and y.a[-1] >= 0:
                tt = self.ty[y.a[-1]]
                if tt["k"] == "tuple" and len(tt["ts"]) == len(x.a):
                    r = ONE
                    for i, fx in enumerate(x.a):
                        r = self.mk_and(r, self.mk_eq(f, fx, mk("fld", y, None, i, tt["ts"][i])))
                    return r
        ka, kb = bytes_const(a), bytes_const(b)
        if (ka == b"V" and b.op == "app" and b.a[0] == "display") or (kb == b"V" and a.op == "app" and a.a[0] == "display"):
            return ZERO
        if ka is not None and kb is not None:
            return I(ka == kb)
        if a.op == "app" and b.op == "app" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            r = ONE
            for x, y in zip(a.a[1:], b.a[1:]):
                if isinstance(x, Term) and isinstance(y, Term):
                    r = self.mk_and(r, self.mk_eq(f, x, y))
            if f.decide(r) == 1:
                return ONE
        scal = ("int", "lin", "bits", "wrap", "len", "discr", "discv", "it")
        if a.op in scal or b.op in scal:
            return self.eq0(f, sub(a, b))
        if a.op in ("fld", "sym", "elem", "rd") and isinstance(a.a[-1], int) and a.a[-1] >= 0 and self.ty.int_range(a.a[-1]):
            return self.eq0(f, sub(a, b))
        for x, y in ((a, b), (b, a)):
            if self.loop_eq(f, x, y) is ONE:
                return ONE
        if b.id < a.id:
            a, b = b, a
        t = mk("eq", a, b)
        r = f.decide(t)
        return t if r is None else I(r)

    def field_dontcare(self, f, ti, v, i, y):
        return False

    def apply_guards(self, f, gs, m=None):
        """assume the guards of a loop alternative; raises Infeasible"""
        for g, val in gs:
            g2 = self.subst(g, m, f) if m else g
            if val[0] == "ne":
                f.exclude(g2, val[1])
            elif g2.op in ("eq", "lt", "eq0", "not", "and", "or", "ovf") and val[0] == val[1]:
                f.bound_bool(g2, val[0])
            else:
                f.bound(g2, val[0], val[1])

    def loop_eq(self, f, a, b):
        """for k<n { alternatives } against an opaque sequence: element-wise"""
        if a.op != "seq" or len(a.a) != 1 or a.a[0][0] != "loop":
            return None
        if b.op not in ("fld", "sym", "elem", "rd", "mget") or not isinstance(b.a[-1], int) or b.a[-1] < 0:
            return None
        _, uid, n, alts = a.a[0]
        if n is not seq_len(b) and f.value(sub(n, seq_len(b))) != 0:
            return None
        try:
            ety = self.ty.elem(b.a[-1])
        except Exception:
            return None
        it = mk("it", uid)
        for gs, ps in alts:
            if len(ps) != 1 or ps[0][0] != "e":
                return None
            f2 = f.copy()
            try:
                self.apply_guards(f2, gs)
                f2.bound(sub(n, it), 1, INF)
                r = f2.decide(self.mk_eq(f2, ps[0][1], mk("elem", b, it, ety)))
            except Infeasible:
                continue
            if r != 1:
                return None
        return ONE

    def seq_minlen(self, f, t):
        return None

    # deep value: replace references by what they point to
    def deep(self, s, v, memo=None, depth=0):
        memo = {} if memo is None else memo
        if v in memo:
            return memo[v]
        if depth > 60:
            return v
        op = v.op
        if op == "ref":
            r = self.deep(s, self.load(s, (v.a[0], v.a[1])), memo, depth + 1)
        elif op in ("adt", "tup", "clo"):
            r = mk(op, *[self.deep(s, x, memo, depth + 1) if isinstance(x, Term) else x for x in v.a])
        elif op == "seq":
            r = seq([q for p in v.a for q in map_piece(p, lambda x: self.deep(s, x, memo, depth + 1))])
        elif op in ("app", "fld", "elem", "len", "discr") and any(
            isinstance(x, Term) and contains(x, lambda y: y.op == "ref") for x in v.a
        ):
            r = self.rebuild(
                op,
                tuple(self.deep(s, x, memo, depth + 1) if isinstance(x, Term) else x for x in v.a),
                s.f,
            )
        else:
            r = v
        memo[v] = r
        return r

    # ------------------------------------------------------------ places
    def local_ty(self, fr, l):
        return self.insts[fr[0]]["locals"][l]

    def resolve(self, s, fr, place):
        l, projs = place
        cell = ("L", fr[1], l)
        ti = self.insts[fr[0]]["locals"][l]
        ps = ()
        variant = None
        for p in projs:
            if p == "*":
                t = self.ty[ti]
                v = self.load(s, (cell, ps))
                cell, ps = self.deref(s, v)
                if t["k"] in ("ref", "ptr"):
                    ti = t["t"]
                elif t["k"] == "adt":
                    ti = t["args"][0]
                variant = None
                continue
            k = p[0]
            if k == "f":
                t = self.ty[ti]
                if self.ty.transparent(ti):
                    ti = p[2]
                    variant = None
                    continue
                vv = variant
                if t["k"] == "adt" and t["adt"] == "enum" and vv is None:
                    vv = 0
                ps = ps + (("f", vv, p[1], p[2], ti),)
                ti = p[2]
                variant = None
            elif k == "dc":
                variant = p[1]
            elif k == "i":
                idx = self.load(s, (("L", fr[1], p[1]), ()))
                e = self.ty.elem(ti)
                ps = self.add_index(s, ps, idx, e)
                ti = e
            elif k == "ci":
                off, fromend = p[1], p[3]
                if fromend:
                    n = seq_len(self.load(s, (cell, ps)))
                    idx = sub(n, I(off))
                else:
                    idx = I(off)
                e = self.ty.elem(ti)
                ps = self.add_index(s, ps, idx, e)
                ti = e
            elif k == "sub":
                frm, to, fromend = p[1], p[2], p[3]
                n = seq_len(self.load(s, (cell, ps)))
                ps = ps + (("sl", I(frm), sub(n, I(to)) if fromend else I(to)),)
            else:
                ps = ps + (("f", None, 0, -1),)
        return (cell, ps), ti, variant

    def add_index(self, s, ps, idx, e):
        if ps and ps[-1][0] == "sl":
            return ps[:-1] + (("i", add(ps[-1][1], idx), e),)
        return ps + (("i", idx, e),)

    def deref(self, s, v):
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op == "adv":
            return ("O", mk("rest", self.load(s, self.deref(s, v.a[0])), v.a[1])), ()
        return ("O", v), ()

    # ------------------------------------------------------------ operands
    def const(self, c, ti):
        k = c["k"]
        if k == "int":
            v = int(c["v"])
            return I(v)
        if k == "float":
            return mk("flt", str(c.get("bits")))
        if k == "str":
            return mk("ref", ("K", kseq(bytes(c["b"]))), ())
        if k in ("bytes", "wbytes"):
            return mk("ref", ("K", kseq(bytes(c["b"]))), ())
        if k == "ref":
            inner = self.const(c["v"], c["t"])
            return mk("ref", ("K", inner), ())
        if k == "fn":
            return self.fnterm(c["f"])
        if k == "zst":
            t = self.ty[ti]
            if t["k"] == "fndef":
                return self.fnterm(t["f"])
            if t["k"] == "closure":
                return mk("clo", ti)
            if t["k"] == "adt":
                if t["adt"] == "struct":
                    return self.zadt(ti)
            return UNIT
        if k == "agg":
            t = self.ty[ti]
            fs = [self.const(x["c"], x["t"]) if "c" in x else self.const(x, None) for x in c["f"]]
            return self.aggregate_t(None, ti, c["variant"], fs)
        if k == "static":
            return unk("static", str(c)[:80])
        return unk("const", k, self.ty.s(ti)[:60])

    def zadt(self, ti):
        t = self.ty[ti]
        fs = []
        for _, fty in t["v"][0]["f"]:
            ft = self.ty[fty]
            fs.append(self.zadt(fty) if ft["k"] == "adt" and ft["adt"] == "struct" and ft["v"] else UNIT)
        return self.aggregate_t(None, ti, 0, fs)

    def aggregate_t(self, s, ti, variant, fs):
        t = self.ty[ti]
        k = t["k"]
        if k == "adt":
            if t["path"] == "std::borrow::Cow":
                v = fs[0]
                if variant == 0 and s is not None and v.op == "ref":  # Borrowed
                    return self.load(s, (v.a[0], v.a[1]))
                if variant == 0 and v.op == "ref" and v.a[0][0] == "K":
                    return self.load(State(self.ty), (v.a[0], v.a[1]))
                return v
            if self.ty.transparent(ti):
                return fs[0] if fs else UNIT
            return self.adt(ti, variant, *fs)
        if k == "tuple":
            return mk("tup", *fs)
        if k == "array":
            return self.mkseq(fs, t["t"])
        if k == "closure":
            return mk("clo", ti, *fs)
        return unk("agg", k)

    def operand(self, s, fr, o):
        if o[0] == "c":
            return self.const(o[1]["c"], o[1]["t"])
        if o[0] == "rt":
            # checks of unsafe preconditions are compiled out in release builds: the operations themselves are modelled
            return I(1 if "Overflow" in o[1] else 0)
        loc, ti, _ = self.resolve(s, fr, o[1])
        return self.load(s, loc)

    def operand_ty(self, s, fr, o):
        if o[0] == "c":
            return o[1]["t"]
        l, projs = o[1]
        ti = self.insts[fr[0]]["locals"][l]
        for p in projs:
            if p == "*":
                t = self.ty[ti]
                ti = t["t"] if t["k"] in ("ref", "ptr") else t["args"][0]
            elif p[0] == "f":
                ti = p[2]
            elif p[0] in ("i", "ci"):
                ti = self.ty.elem(ti)
        return ti

    # ------------------------------------------------------------ rvalues
    def rvalue(self, s, fr, rv, dest_ty, loc):
        k = rv[0]
        if k == "use":
            return self.operand(s, fr, rv[1])
        if k in ("ref", "raw"):
            l, ti, _ = self.resolve(s, fr, rv[1])
            return mk("ref", l[0], l[1])
        if k == "cast":
            return self.cast(s, fr, rv[1], rv[2], rv[3])
        if k == "bin":
            a = self.operand(s, fr, rv[2])
            b = self.operand(s, fr, rv[3])
            return self.binop(s, rv[1], a, b, self.operand_ty(s, fr, rv[2]), self.operand_ty(s, fr, rv[3]))
        if k == "un":
            a = self.operand(s, fr, rv[2])
            ti = self.operand_ty(s, fr, rv[2])
            if rv[1] == "Not":
                if self.ty[ti]["k"] == "bool":
                    return self.mk_not(a)
                r = self.ty.int_range(ti)
                if r and r[0] == 0:
                    return sub(I(r[1]), a)
                return sub(I(-1), a)
            if rv[1] == "Neg":
                t = self.ty[ti]
                if t["k"] == "int":
                    return s.f.wrap(t["bits"], t["signed"], scale(a, -1))
                return mk("neg", a)
            if rv[1] == "PtrMetadata":
                if a.op == "ref":
                    a = self.load(s, (a.a[0], a.a[1]))
                if a.op == "src":
                    a = self.models.src_norm(s, a)
                return seq_len(a)
            return unk("un", rv[1])
        if k == "discr":
            l, ti, _ = self.resolve(s, fr, rv[1])
            v = self.load(s, l)
            t = self.ty[ti]
            if t["k"] == "adt" and t["adt"] == "enum" and t["path"] != "std::borrow::Cow":
                if v.op == "adt":
                    return I(self.discr_value(v.a[0], v.a[1]))
                n = len(t["v"])
                ds = [self.discr_value(ti, i) for i in range(n)]
                if ds == list(range(n)):
                    return self.mk_discr(v, n)
                return mk("discv", self.mk_discr(v, n), ti)
            return mk("discr", v, 2)
        if k == "agg":
            kind = rv[1]
            fs = [self.operand(s, fr, o) for o in rv[2]]
            if kind[0] == "adt":
                return self.aggregate_t(s, kind[1], kind[2], fs)
            if kind[0] == "tuple":
                return mk("tup", *fs)
            if kind[0] == "array":
                return self.mkseq(fs, kind[1])
            if kind[0] == "closure":
                return mk("clo", kind[1], *fs)
            if kind[0] == "rawptr":
                return fs[0]
            return unk("agg", kind[0])
        if k == "rep":
            e = self.operand(s, fr, rv[1])
            t = self.ty[dest_ty]
            n = I(int(t["n"])) if t["k"] == "array" and t.get("n") is not None else unk("n")
            if self.ty.is_bytes(t["t"]) and isint(e) and isint(n) and n.a[0] < 65536:
                return kseq(bytes([e.a[0]]) * n.a[0])
            return seq((("rep", e, n),))
        return unk("rv", k)

    def cast(self, s, fr, kind, op, ti):
        v = self.operand(s, fr, op)
        sti = self.operand_ty(s, fr, op)
        t = self.ty[ti]
        if kind.startswith("IntToInt"):
            if v.op == "discv":
                v = self.discv_int(s, v)
            if t["k"] == "int":
                self.narrow(s, fr, v, sti, t)
                return s.f.wrap(t["bits"], t["signed"], v)
            return v
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                return v
            return v
        if kind.startswith("Transmute"):
            st = self.ty[sti]
            if st["k"] in ("int", "char", "bool") and t["k"] in ("int", "char", "bool"):
                if t["k"] == "int":
                    return s.f.wrap(t["bits"], t["signed"], v)
                return v
            if st["k"] == "array" and t["k"] == "int":
                # native (little endian) reassembly
                els = self.elements(s, v, st["t"])
                if els is not None:
                    r = ZERO
                    for i, e in enumerate(els):
                        r = add(r, scale(e, 1 << 8 * i))
                    return s.f.join_bits(r)
            if st["k"] == "int" and t["k"] == "array":
                n = int(t["n"])
                els = [self.byte_of(s, v, n, n - 1 - i) for i in range(n)]
                return self.mkseq(els, t["t"])
            if st["k"] in ("ref", "ptr", "adt") and t["k"] in ("ref", "ptr", "adt"):
                if t["k"] == "adt" and t["adt"] == "enum" and v.op == "int":
                    return self.enum_from_discr(ti, v)
                return v
            if t["k"] == "adt" and t["adt"] == "enum":
                return self.enum_from_discr(ti, v)
            return v
        if kind.startswith("BoxDeref"):
            # the pointer inside a box; a symbolic box is its contents
            if v.op == "ref" or op[0] == "c":
                return v
            l, _, _ = self.resolve(s, fr, op[1])
            return mk("ref", l[0], l[1])
        if kind.startswith("Subtype"):
            return v
        if kind.startswith("FloatToFloat") or "Float" in kind:
            return self.mk_app("fcast:%s:%s" % (kind[:10], t["s"]), v, ti)
        return unk("cast", kind)

    def narrow(self, s, fr, v, sti, t):
        """integer narrowing: obligation, and in assume mode taken to be lossless for lengths"""
        r = self.ty.int_range(sti)
        if not r:
            return
        lo, hi = (-(1 << t["bits"] - 1), (1 << t["bits"] - 1) - 1) if t["signed"] else (0, (1 << t["bits"]) - 1)
        if r[0] >= lo and r[1] <= hi:
            return
        rl, rh = s.f.range(v)
        ok = rl >= lo and rh <= hi
        self.casts.setdefault((fr[0], self.cur), [0, 0, None])[0 if ok else 1] += 1
        if not ok and self.casts[(fr[0], self.cur)][2] is None:
            self.casts[(fr[0], self.cur)][2] = (v, self.ty.s(sti), t["s"])
        if not ok and self.assume_lengths and islen(v):
            s.f.bound(v, lo, hi, rec=False)

    def enum_from_discr(self, ti, v):
        if isint(v):
            for i in range(len(self.ty[ti]["v"])):
                if self.discr_value(ti, i) == v.a[0]:
                    return self.adt(ti, i)
        return mk("enumof", v, ti)

    def discv_int(self, s, v):
        d, ti = v.a
        x = s.f.value(d)
        if x is not None:
            return I(self.discr_value(ti, x))
        return v

    def binop(self, s, op, a, b, ta, tb):
        f = s.f
        if a.op == "discv":
            a = self.discv_int(s, a)
        if b.op == "discv":
            b = self.discv_int(s, b)
        t = self.ty[ta]
        isnum = t["k"] in ("int", "char", "bool")
        if op in ("Eq", "Ne"):
            if not isnum:
                if t["k"] == "float":
                    r = self.mk_app("feq", a, b, -1)
                else:
                    r = self.mk_eq(f, a, b)
            else:
                r = self.eq0(f, sub(a, b))
            return r if op == "Eq" else self.mk_not(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if t["k"] == "float":
                return self.mk_app("fcmp" + op, a, b, -1)
            if op == "Lt":
                return self.lt0(f, sub(a, b))
            if op == "Gt":
                return self.lt0(f, sub(b, a))
            if op == "Le":
                return self.lt0(f, add(sub(a, b), I(-1)))
            return self.lt0(f, add(sub(b, a), I(-1)))
        if t["k"] == "float":
            return self.mk_app("f" + op, a, b, -1)
        bits, sg = t.get("bits", 8), t.get("signed", False)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            r = self.simp_sum(f, r)
            o = mk("ovf", bits, sg, r)
            d = f.decide(o)
            return mk("tup", r, o if d is None else I(d))
        if op in ("Add", "AddUnchecked", "Sub", "SubUnchecked", "Mul", "MulUnchecked"):
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            r = self.simp_sum(f, r)
            return r if "Unchecked" in op else f.wrap(bits, sg, r)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if t["k"] == "bool":
                if op == "BitAnd":
                    return self.mk_and(a, b)
                if op == "BitOr":
                    return self.mk_or(a, b)
                return self.eq0(f, add(add(a, b), I(-1)))
            if op == "BitAnd":
                return f.bitand(a, b)
            if op == "BitOr":
                return f.bitor(a, b)
            return f.bitxor(a, b)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            if isint(b):
                n = b.a[0] % bits
                if op.startswith("Shl"):
                    return f.wrap(bits, sg, scale(a, 1 << n))
                if f.range(a)[0] >= 0:
                    r = f.bits(a, n, bits - n)
                    if r is not None:
                        return r
            return mk("shl" if op.startswith("Shl") else "shr", a, b)
        if op in ("Div", "Rem"):
            return self.divrem(f, op.lower(), a, b)
        if op == "Cmp":
            d = sub(a, b)
            lo, hi = f.range(d)
            return mk("cmp", d)
        if op == "Offset":
            return unk("offset")
        return unk("bin", op)

    def simp_sum(self, f, r):
        if r.op == "lin" and any(v.op == "bits" for v, _ in r.a[1]):
            return f.join_bits(r)
        return r

    # ------------------------------------------------------------ CFG / loops
    def get_cfg(self, ii):
        c = self.cfg.get(ii)
        if c is None:
            c = self.cfg[ii] = CFG(self.insts[ii])
        return c

    # ------------------------------------------------------------ execution
    def run_fn(self, s, ii, args):
        """interpret function instance; returns list of Out ('ret'|'panic')"""
        inst = self.insts[ii]
        depth = len(self.stack)
        if depth > 120:
            raise Budget("depth")
        fr = (ii, depth)
        self.stack.append(fr)
        self.visited.add(ii)
        try:
            args = list(args)
            n = inst["argc"]
            if inst.get("spread") is not None:
                pass
            if len(args) != n:
                # rust-call ABI: untuple the last argument
                if args and args[-1].op == "tup":
                    args = args[:-1] + list(args[-1].a)
                elif args and n - len(args) >= 0:
                    tup = args[-1]
                    args = args[:-1] + [
                        mk("fld", tup, None, i, inst["locals"][len(args) + i]) for i in range(n - len(args) + 1)
                    ]
            for i, v in enumerate(args):
                t = self.ty[inst["locals"][i + 1]]
                if i == 0 and t["k"] == "ref" and v.op == "clo":
                    v = mk("ref", s.alloc(v), ())
                elif i == 0 and t["k"] == "closure" and v.op == "ref":
                    v = self.load(s, (v.a[0], v.a[1]))
                s.cells[("L", depth, i + 1)] = v
            outs = self.run(fr, 0, s, None, None)
            res = []
            for o in outs:
                if o.k == "ret":
                    o.v = o.s.cells.get(("L", depth, 0), UNIT)
                for k in [k for k in o.s.cells if k[0] == "L" and k[1] == depth]:
                    del o.s.cells[k]
                res.append(o)
            return res
        finally:
            self.stack.pop()

    def run(self, fr, bb0, s0, region, header):
        outs = []
        work = [(bb0, s0, True)]
        inst = self.insts[fr[0]]
        blocks = inst["blocks"]
        cfg = self.get_cfg(fr[0])
        while work:
            bb, s, first = work.pop()
            if not first and region is not None and (bb == header or bb not in region):
                outs.append(Out("edge", s, bb))
                continue
            if bb in cfg.loops and not (first and bb == header):
                for o in self.do_loop(fr, cfg, bb, s):
                    if o.k == "edge":
                        work.append((o.v, o.s, False))
                    else:
                        outs.append(o)
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("steps")
            stmts, term, _ = blocks[bb]
            try:
                for st in stmts:
                    self.stmt(s, fr, st)
                for nb, ns in self.terminator(s, fr, term, bb, outs):
                    work.append((nb, ns, False))
            except Infeasible:
                continue
        return outs

    def stmt(self, s, fr, st):
        k = st[0]
        if k == "=":
            l, ti, _ = self.resolve(s, fr, st[1])
            self.cur = tuple(st[3]) if isinstance(st[3], list) else st[3]
            v = self.rvalue(s, fr, st[2], ti, st[3])
            self.store(s, l, v)
        elif k == "setd":
            l, ti, _ = self.resolve(s, fr, st[1])
            self.store(s, l, self.adt(ti, st[2]))
        elif k == "intr":
            pass

    def branch(self, s, t):
        """fork on boolean term; yields (value, state)"""
        d = s.f.decide(t)
        if d is not None:
            return [(d, s)]
        if t.op == "not":
            return [(1 - v, st) for v, st in self.branch(s, t.a[0])]
        if t.op == "and":
            out = []
            for v, st in self.branch(s, t.a[0]):
                if v:
                    out += self.branch(st, t.a[1])
                else:
                    out.append((0, st))
            return out
        if t.op == "or":
            out = []
            for v, st in self.branch(s, t.a[0]):
                if v:
                    out.append((1, st))
                else:
                    out += self.branch(st, t.a[1])
            return out
        out = []
        for v in (0, 1):
            ns = s.copy()
            try:
                ns.f.bound_bool(t, v)
            except Infeasible:
                continue
            out.append((v, ns))
        return out

    def terminator(self, s, fr, t, bb, outs):
        k = t[0]
        if k == "goto":
            return [(t[1], s)]
        if k == "drop":
            return [(t[1], s)]
        if k == "ret":
            outs.append(Out("ret", s, None))
            return []
        if k == "unreachable":
            self.oblige(fr, bb, "unreachable", None, False, s)
            return []
        if k == "switch":
            return self.switch(s, fr, t)
        if k == "assert":
            c = self.operand(s, fr, t[1])
            want = 1 if t[2] else 0
            d = s.f.decide(c)
            if d == want:
                self.oblige(fr, t[5] if len(t) > 5 else bb, "assert:" + str(t[3]), c, True, s)
                return [(t[4], s)]
            if d is None and self.fork_asserts and str(t[3]) != "other":
                from models import bit_decide
                if bit_decide(s.f, c) == want:
                    self.oblige(fr, t[5] if len(t) > 5 else bb, "assert:" + str(t[3]), c, True, s)
                    s.f.bound_bool(c, want)
                    return [(t[4], s)]
                try:
                    s2 = s.copy()
                    s2.f.bound_bool(c, 1 - want)
                    outs.append(Out("panic", s2, "assert:" + str(t[3])))
                except Infeasible:
                    pass
            self.oblige(fr, t[5] if len(t) > 5 else bb, "assert:" + str(t[3]), c, False, s)
            if d is not None:
                outs.append(Out("panic", s, "assert:" + str(t[3])))
                return []
            s.f.bound_bool(c, want)
            return [(t[4], s)]
        if k == "call":
            return self.do_call(s, fr, t, bb, outs)
        if k == "resume":
            return []
        outs.append(Out("panic", s, "term:" + k))
        return []

    def oblige(self, fr, site, kind, cond, ok, s):
        key = (fr[0], str(site), kind)
        e = self.obl.setdefault(key, [0, 0, None])
        e[0 if ok else 1] += 1
        if not ok and e[2] is None:
            e[2] = (cond, tuple(self.stack))

    def switch(self, s, fr, t):
        v = self.operand(s, fr, t[1])
        cases, other = t[3], t[4]
        return self.switch_on(s, v, [(int(a), b) for a, b in cases], other)

    def switch_on(self, s, v, cases, other):
        if v.op == "discv":
            d, ti = v.a
            n = len(self.ty[ti]["v"])
            back = {self.discr_value(ti, i): i for i in range(n)}
            nc = [(back[a], b) for a, b in cases if a in back]
            return self.switch_on(s, d, nc, other)
        if v.op in ("lt", "eq0", "eq", "not", "and", "or", "ovf", "ok"):
            res = []
            m = dict(cases)
            for val, st in self.branch(s, v):
                res.append((m.get(val, other), st))
            return [(b, st) for b, st in res if b is not None]
        if v.op == "cmp":
            # three way comparison result -1/0/1
            res = []
            m = {(a if a < 128 else a - 256): b for a, b in cases}
            d = v.a[0]
            for val, (lo, hi) in ((-1, (-INF, -1)), (0, (0, 0)), (1, (1, INF))):
                ns = s.copy()
                try:
                    ns.f.bound(d, lo, hi)
                except Infeasible:
                    continue
                res.append((m.get(val, other), ns))
            return res
        x = s.f.value(v)
        if x is not None:
            for a, b in cases:
                if a == x or (x < 0 and (a - x) % (1 << 128) == 0) or (x < 0 and self.wrapeq(a, x)):
                    return [(b, s)]
            return [(other, s)]
        res = []
        rest = s.copy()
        dead = False
        groups = {}
        for a, b in cases:
            lo, hi = s.f.range(v)
            if lo < 0 and a > hi:
                for w in (8, 16, 32, 64, 128):
                    if lo <= a - (1 << w) <= hi and (1 << w - 1) <= a < (1 << w):
                        a -= 1 << w
                        break
            ns = s.copy()
            try:
                ns.f.bound(v, a, a)
                res.append((b, ns))
            except Infeasible:
                pass
            if not dead:
                try:
                    rest.f.exclude(v, a)
                except Infeasible:
                    dead = True
        if not dead and other is not None:
            res.append((other, rest))
        return res

    @staticmethod
    def wrapeq(a, x):
        return any(a == x + (1 << w) for w in (8, 16, 32, 64, 128))

    # ------------------------------------------------------------ calls
    def do_call(self, s, fr, t, bb, outs):
        f, args, dest, target, loc = t[1], t[2], t[3], t[4], t[5]
        vals = [self.operand(s, fr, a) for a in args]
        if "indirect" in f:
            fv = self.operand(s, fr, f["indirect"])
            f = self.fns[fv.a[0]] if fv.op == "fn" else None
            if fv.op == "clo":
                f = {"path": "closure", "crate": "", "args": [], "clo": fv}
                vals = [fv] + vals
        dl, dti, _ = self.resolve(s, fr, dest)
        site = (fr[0], bb, loc)
        mut = set()
        for v, a in zip(vals[len(vals) - len(args) :], args):
            if v.op == "ref" and a[0] != "c":
                at = self.ty[self.operand_ty(s, fr, a)]
                if at["k"] in ("ref", "ptr") and at.get("mut"):
                    mut.add(v)
        self.muts = mut
        res = self.call(s, f, vals, dti, site)
        nxt = []
        for o in res:
            if o.k == "ret":
                if target is None:
                    continue
                # destination must be resolved in the new state
                dl2, _, _ = self.resolve(o.s, fr, dest)
                self.store(o.s, dl2, o.v)
                nxt.append((target, o.s))
            else:
                outs.append(o)
        return nxt

    def call(self, s, f, vals, dti, site):
        if self.intercept and f is not None:
            h = self.intercept.get(f.get("rpath") or f["path"])
            if h is not None:
                r = h(s, vals, dti)
                if r is not None:
                    return r
        if f is None:
            return [Out("ret", s, unk("indirect"))]
        real = self.real and "inst" in f and f.get("rcrate", f["crate"]) in self.real and not (f.get("rtrait") or f.get("trait") or "").split("::")[-1].startswith("Fn")
        for a in self.atoms:
            r = None if real else a(self, s, f, vals, dti, site)
            if r is not None:
                return r
        if "ctor" in f:
            ti, v = f["ctor"]
            return [Out("ret", s, self.aggregate_t(s, ti, v, vals))]
        r = None if real else self.models.call(s, f, vals, dti, site)
        if r is not None:
            return r
        if "clo" in f:
            ti = f["clo"].a[0]
            inst = self.ty[ti].get("inst")
            if inst is not None:
                return self.run_fn(s, inst, vals)
        if "inst" in f and f.get("rcrate", f["crate"]) not in OPAQUE_CRATES:
            ii = f["inst"]
            self.calls_seen.add(ii)
            if sum(1 for x in self.stack if x[0] == ii) >= 2:
                return [Out("ret", s, self.havoc_call(s, "recursion", vals, dti))]
            return self.run_fn(s, ii, vals)
        p = f.get("rpath") or f["path"]
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        return [Out("ret", s, self.havoc_call(s, p, vals, dti))]

    def havoc_call(self, s, p, vals, dti):
        key = tuple(self.deep(s, v) for v in vals)
        for v in vals:
            # forget what is reachable through mutable references
            if v.op == "ref" and v in self.muts and v.a[0][0] in ("L", "H"):
                self.store(s, self.deref(s, v), mk("unk", "mut", p, *key))
        return mk("unk", "call", p, *key)

    # ------------------------------------------------------------ loops
    def do_loop(self, fr, cfg, header, s):
        blocks = cfg.loops[header]
        live = cfg.live_at(header)
        depth = fr[1]
        for k in [k for k in s.cells if k[0] == "L" and k[1] == depth and k[2] not in live]:
            del s.cells[k]

        def body(st):
            res = []
            for o in self.run(fr, header, st, blocks, header):
                if o.k == "edge" and o.v == header:
                    for k in [k for k in o.s.cells if k[0] == "L" and k[1] == depth and k[2] not in live]:
                        del o.s.cells[k]
                    res.append(Out("back", o.s, None))
                elif o.k == "edge":
                    for k in [k for k in o.s.cells if k[0] == "L" and k[1] == depth and k[2] not in cfg.live_at(o.v)]:
                        del o.s.cells[k]
                    res.append(o)
                else:
                    res.append(o)
            return res

        if self.loop_hook is not None:
            r = self.loop_hook(fr, header, s, body)
            if r is not None:
                return r
        uid = "%d.%d.%d" % (fr[0], header, s.fresh())
        return self.summarize(s, body, uid, "%s bb%d" % (self.insts[fr[0]]["path"], header))

    def summarize(self, s, body, uid, name):
        """Loop: concrete unrolling while the continue decision is determined,
        otherwise one abstract iteration with havocked loop-carried state."""
        entry = s
        # --- concrete attempt
        cur = [entry.copy()]
        done = []
        cap, rounds = (64, self.MAXUNROLL) if not self.unroll else (self.unroll_cap, self.unroll)
        for n in range(rounds):
            nxt = []
            ok = True
            for st in cur:
                ntag = len(st.tags)
                outs = body(st.copy())
                backs = [o for o in outs if o.k == "back"]
                clean = [o for o in outs if o.k != "back" and len(o.s.tags) == ntag and o.k != "panic"]
                if backs and clean and not self.unroll:
                    ok = False
                    break
                done += [o for o in outs if o.k != "back"]
                nxt += [o.s for o in backs]
            if not ok or len(nxt) > cap:
                break
            if not nxt:
                return done
            cur = nxt
        if self.trace_loops:
            print("abstract", name, "rounds", n, "states", len(cur), len(nxt), flush=True)
        return self.abstract_loop(entry, body, uid, name)

    def abstract_loop(self, entry, body, uid, name):
        it = mk("it", uid)
        octx = entry.ctx
        leaves = {}  # (cell, path) -> kind: 'phi' | 'acc' | ('ind', c)
        init = {}
        grow, nogrow = {}, set()  # sequences that grow by a fixed number of elements per iteration

        def acc_piece(k):
            p = ("acc", uid, self.leafid(*k))
            return p + (it, grow[k]) if k in grow else p

        def build():
            st = entry.copy()
            st.ctx = octx + (uid,)
            st.heap = 0
            for (c, path), kind in leaves.items():
                old = self.leaf(st.cells[c], path)
                base = init[(c, path)]
                if kind == "acc":
                    new = seq((("sp", base), acc_piece((c, path))))
                elif kind == "phi":
                    new = mk("phi", uid, self.leafid(c, path), it, self.leaf_ty(c, path))
                    if (c, path) not in noshrink and self.is_slice_ref(new.a[-1]) and base.op in ("ref", "adv", "phi"):
                        # a reader that only moves forward: what is left never grows
                        n0, n1 = seq_len(self.models.val(entry, base)), mk("len", new)
                        try:
                            st.f.bound(sub(n0, n1), 0, 1 << 60)
                        except Infeasible:
                            pass
                        shrinks[(c, path)] = new
                    elif (c, path) in steps:
                        self.bound_steps(st, base, new, it, steps[(c, path)])
                        counters[(c, path)] = new
                else:
                    new = add(base, scale(it, kind[1]))
                st.cells[c] = self.set_leaf(st.cells[c], path, new)
            return st

        noind = set()
        noshrink, shrinks = set(), {}
        steps, counters, nosteps = {}, {}, set()  # integers that grow by a bounded amount per iteration
        for rnd in range(40):
            shrinks.clear()
            counters.clear()
            st = build()
            start = st.copy()
            outs = body(st)
            backs = [o.s for o in outs if o.k == "back"]
            changed = False
            before = dict(leaves)
            for b in backs:
                for c in entry.cells:
                    if c not in b.cells:
                        continue
                    v0, v1 = start.cells[c], b.cells[c]
                    if v0 is v1:
                        continue
                    for path, how in list(self.diff(v0, v1, ())):
                        cov = None
                        for (c2, p2), kd in leaves.items():
                            if c2 == c and path[: len(p2)] == p2:
                                cov = (c2, p2)
                                break
                        if cov:
                            kd = leaves[cov]
                            if kd != "phi" and not (path == cov[1] and how == kd):
                                leaves[cov] = "phi"
                                noind.add(cov)
                                changed = True
                            continue
                        for k2 in [k for k in leaves if k[0] == c and k[1][: len(path)] == path]:
                            del leaves[k2]
                        if (c, path) in noind and how != "acc":
                            how = "phi"
                        leaves[(c, path)] = how
                        init[(c, path)] = self.leaf(entry.cells[c], path)
                        changed = True
            for (c, path), kind in list(leaves.items()):
                if isinstance(kind, tuple) and before.get((c, path)) == kind:
                    exp = add(init[(c, path)], scale(add(it, ONE), kind[1]))
                    for b in backs:
                        if c not in b.cells or self.leaf(b.cells[c], path) is not exp:
                            leaves[(c, path)] = "phi"
                            noind.add((c, path))
                            changed = True
                            break
            for k, ph in shrinks.items():
                for b in backs:
                    v1 = self.leaf(b.cells[k[0]], k[1]) if k[0] in b.cells else None
                    if v1 is not ph and not (v1 is not None and v1.op == "adv" and v1.a[0] is ph):
                        noshrink.add(k)
                        changed = True
                        break
            for k, kind in leaves.items():
                if kind != "phi" or k in nosteps or k in shrinks or before.get(k) != "phi":
                    continue
                ph = self.leaf(start.cells[k[0]], k[1])
                ti = ph.a[-1] if ph.op == "phi" else -1
                r = self.ty.int_range(ti) if isinstance(ti, int) and ti >= 0 else None
                ds = [sub(self.leaf(b.cells[k[0]], k[1]), ph) if k[0] in b.cells else None for b in backs] if r else None
                if not ds or not all(d is not None and isint(d) and abs(d.a[0]) < 1 << 20 for d in ds):
                    nosteps.add(k)
                    if steps.pop(k, None) is not None:
                        changed = True
                    continue
                e = (min(d.a[0] for d in ds), max(d.a[0] for d in ds))
                if steps.get(k) != e:
                    if k in steps:  # do not chase a moving target
                        nosteps.add(k)
                        del steps[k]
                    else:
                        steps[k] = e
                    changed = True
            for k, kind in leaves.items():
                if kind != "acc" or k in nogrow or before.get(k) != "acc" or not backs:
                    continue
                v0, d = self.leaf(start.cells[k[0]], k[1]), None
                pl = mk("plen", acc_piece(k))
                if k not in grow and not any(contains(g[0], lambda x: x is pl) for o in outs for g in o.s.f.order):
                    continue
                for b in backs:
                    ps = self.suffix(v0, self.leaf(b.cells[k[0]], k[1])) if k[0] in b.cells else None
                    l = seq_len(seq(ps)) if ps is not None else None
                    if l is None or not isint(l) or d not in (None, l.a[0]):
                        nogrow.add(k)
                        break
                    d = l.a[0]
                if k in nogrow:
                    changed |= grow.pop(k, None) is not None
                elif k not in grow:
                    grow[k] = d
                    changed = True
                elif grow[k] != d:
                    nogrow.add(k)
                    del grow[k]
                    changed = True
            if not changed:
                break
        # ---- alternatives per accumulated leaf
        nord = len(start.f.order)
        accs, keys = {}, {}
        for (c, path), kind in leaves.items():
            if kind != "acc":
                continue
            v0 = self.leaf(start.cells[c], path)
            alts = []
            for b in backs:
                v1 = self.leaf(b.cells[c], path)
                pieces = self.suffix(v0, v1)
                if pieces:
                    pieces = tuple(q for p in pieces for q in map_piece(p, lambda x: self.deep_new(b, x, entry)))
                guards = tuple(
                    (k, v) for k, *v in ((o[0], *o[1:]) for o in b.f.order[nord:]) if not self.is_bound_guard(k, it)
                )
                guards = tuple((k, tuple(v)) for k, v in guards)
                a = (guards, pieces)
                if a not in alts:
                    alts.append(a)
            accs[self.leafid(c, path)] = tuple(alts)
            keys[self.leafid(c, path)] = acc_piece((c, path))
        rec = dict(
            uid=uid, name=name, entry=entry, start=start, leaves=leaves, init=init, backs=backs,
            accs=accs, exits=[], it=it,
        )
        self.loops[uid] = rec
        # what went wrong in iterations after which the loop went on
        lost, memo = set(), set()  # and the variables that may remember it
        for b in backs:
            x = set(b.tags[len(start.tags):]) | {y for e in b.ev[len(start.ev):] if e[0] == "loopfail" for y in e[2]}
            if x:
                lost |= x
                for c, path in leaves:
                    if c in b.cells and self.leaf(b.cells[c], path) is not self.leaf(start.cells[c], path):
                        memo.add(self.leafid(c, path))
        res = []
        for o in outs:
            if o.k == "back":
                continue
            n = self.trip(o.s, backs, it, start) if o.k != "panic" else None
            st = o.s
            count = it
            m = {}
            if n is not None:
                try:
                    st.f.bound(sub(it, n), 0, 0)
                except Infeasible:
                    continue
                count = n
            sub_acc = {}
            for lid, alts in accs.items():
                sub_acc[keys[lid]] = ("loop", uid, count, alts)
            self.finish_exit(st, uid, it, n, sub_acc)
            for k, ph in shrinks.items():
                n0 = seq_len(self.models.val(entry, init[k]))
                n1 = self.fin_term(st, mk("len", ph), it, n, sub_acc, {})
                try:
                    st.f.bound(sub(n0, n1), 0, 1 << 60)
                except Infeasible:
                    pass
            for k, ph in counters.items():
                self.bound_steps(st, init[k], self.fin_term(st, ph, it, n, sub_acc, {}), n if n is not None else it, steps[k])
            if isinstance(o.v, Term):
                o.v = self.fin_term(st, o.v, it, n, sub_acc, {})
            if lost:
                st.ev = st.ev + (("loopfail", uid, tuple(sorted(lost)), frozenset(memo)),)
            st.ctx = octx
            st.heap = max(entry.heap, st.heap) + 1000 if st.heap else entry.heap
            st.heap = entry.heap + 1
            rec["exits"].append((o.k, o.v, st, n))
            res.append(o)
        return res

    def bound_steps(self, st, base, ph, it, e):
        """a counter that grew by e[0]..e[1] in each of `it` iterations"""
        if ph.op != "phi" or base.op in ("unk", "undef"):
            return
        try:
            st.f.bound(it, 0, 1 << 60, rec=False)
            st.f.bound(sub(ph, add(base, scale(it, e[0]))), 0, 1 << 62, rec=False)
            st.f.bound(sub(add(base, scale(it, e[1])), ph), 0, 1 << 62, rec=False)
        except Infeasible:
            pass

    def is_slice_ref(self, ti):
        if not isinstance(ti, int) or ti < 0:
            return False
        t = self.ty[ti]
        return t["k"] == "ref" and self.ty[t["t"]]["k"] == "slice"

    def deep_new(self, s, v, entry):
        """resolve references to cells created since `entry` (they do not outlive the iteration)"""
        if contains(v, lambda y: y.op == "ref" and y.a[0][0] == "H" and y.a[0] not in entry.cells):
            return self.deep(s, v)
        return v

    def is_bound_guard(self, k, it):
        return contains(k, lambda x: x is it) and k.op in ("lin", "it")

    def finish_exit(self, st, uid, it, n, sub_acc):
        memo = {}
        for c, v in list(st.cells.items()):
            st.cells[c] = self.fin_term(st, v, it, n, sub_acc, memo)
        # heap cells created in the loop context survive only if referenced
        if n is not None:
            niv = {}
            for k, v in st.f.iv.items():
                k2 = self.fin_term(st, k, it, n, sub_acc, memo)
                if k2 is not k:
                    if k2.op in ("int",):
                        continue
                    c, vs = lin_parts(k2)
                    if c == 0 and len(vs) == 1 and vs[0][1] == 1:
                        niv[k2] = v
                    continue
                niv[k] = v
            st.f.iv = niv

    def fin_term(self, st, t, it, n, sub_acc, memo):
        if t in memo:
            return memo[t]
        r = self._fin(st, t, it, n, sub_acc, memo)
        memo[t] = r
        return r

    def _fin(self, st, t, it, n, sub_acc, memo):
        g = lambda x: self.fin_term(st, x, it, n, sub_acc, memo)
        if t is it:
            return n if n is not None else t
        op = t.op
        if op in ("int", "sym", "fn", "undef", "it"):
            return t
        if op == "lin":
            r = I(t.a[0])
            for v, k in t.a[1]:
                r = add(r, scale(g(v), k))
            return r
        if op == "seq":
            ps = []
            for p in t.a:
                if p in sub_acc:
                    ps.append(sub_acc[p])
                elif p[0] == "loop":
                    # the loop's own body keeps its iteration symbol
                    ps += list(map_piece(p, g))
                else:
                    ps += list(map_piece(p, g))
            return seq(ps)
        if op == "src":
            return mk("src", *[q for p in t.a for q in map_piece(p, g)])
        if op == "plen":
            r = ZERO
            ps = [sub_acc[t.a[0]]] if t.a[0] in sub_acc else map_piece(t.a[0], g)
            for q in ps:
                r = add(r, piece_len(q))
            return r
        if op == "ref":
            ps = tuple(
                tuple(g(x) if isinstance(x, Term) else x for x in p) for p in t.a[1]
            )
            c = t.a[0]
            if c[0] in ("O", "K"):
                c = (c[0], g(c[1]))
            return mk("ref", c, ps)
        a = tuple(g(x) if isinstance(x, Term) else x for x in t.a)
        if a == t.a:
            return t
        return self.rebuild(op, a, st.f)

    def trip(self, st, backs, it, start):
        """N such that this exit is taken exactly at iteration N, or None"""
        if not backs:
            return None
        cands = []
        nord = len(start.f.order)
        for o in st.f.order[nord:]:
            k = o[0]
            if o[1] == "ne":
                continue
            lo, hi = o[1], o[2]
            if k is it and lo > 0:
                cands.append(I(lo))
            if k.op == "lin":
                d = dict(k.a[1])
                if d.get(it) in (1, -1):
                    # it*c + rest in [lo,hi]
                    c = d[it]
                    rest = mk_lin(0, [(v, x) for v, x in k.a[1] if v is not it])
                    if c == 1 and lo > -INF:
                        cands.append(sub(I(lo), rest))
                    if c == -1 and hi < INF:
                        cands.append(sub(rest, I(hi)))
        for n in cands:
            if contains(n, lambda x: x is it):
                continue
            if st.f.range(sub(it, n))[0] < 0:
                continue
            if all(b.f.range(sub(it, n))[1] < 0 for b in backs):
                return n
        return None

    # leaves
    def leafid(self, c, path):
        return str((c, path))

    def leaf(self, v, path):
        for i in path:
            v = v.a[i] if isinstance(v, Term) else v[i]
        return v

    def set_leaf(self, v, path, new):
        if not path:
            return new
        if not isinstance(v, Term):
            a = list(v)
            a[path[0]] = self.set_leaf(a[path[0]], path[1:], new)
            return tuple(a)
        a = list(v.a)
        a[path[0]] = self.set_leaf(a[path[0]], path[1:], new)
        return mk(v.op, *a)

    def leaf_ty(self, c, path):
        ti = None
        if c[0] == "L":
            if c[1] < len(self.stack):
                ti = self.insts[self.stack[c[1]][0]]["locals"][c[2]]
        else:
            ti = self.heap_ty.get(c)
        if ti is None:
            return -1
        for i in path:
            while self.ty.transparent(ti) and self.ty[ti]["v"] and self.ty.path(ti) != "std::borrow::Cow":
                ti = self.ty[ti]["v"][0]["f"][0][1]
            t = self.ty[ti]
            if t["k"] == "adt":
                # variant unknown here: only structs are typed
                if t["adt"] != "struct" or i - 2 >= len(t["v"][0]["f"]):
                    return -1
                ti = t["v"][0]["f"][i - 2][1]
            elif t["k"] == "tuple":
                ti = t["ts"][i]
            else:
                return -1
        return ti

    def diff(self, v0, v1, path):
        if v0 is v1:
            return
        if v0.op == v1.op and v0.op in ("adt", "tup", "clo") and len(v0.a) == len(v1.a):
            off = {"adt": 2, "tup": 0, "clo": 1}[v0.op]
            if v0.a[:off] == v1.a[:off]:
                for i in range(off, len(v0.a)):
                    yield from self.diff(v0.a[i], v1.a[i], path + (i,))
                return
        if v0.op == "src" and v1.op == "src":
            if len(v0.a) == len(v1.a):
                ps = []
                for i, (p, q) in enumerate(zip(v0.a, v1.a)):
                    if p == q:
                        continue
                    if p[0] == q[0] == "lp" and p[:4] == q[:4]:
                        ps += list(self.diff(p[4], q[4], path + (i, 4)))
                    else:
                        ps = None
                        break
                if ps is not None:
                    yield from ps
                    return
            yield (path, "phi")
            return
        if v0.op == "seq" or v1.op == "seq":
            if self.suffix(v0, v1) is not None:
                yield (path, "acc")
                return
        nons = ("seq", "adt", "tup", "ref", "clo", "src", "unk", "undef", "fn", "sym_", "bad")
        if v0.op not in nons and v1.op not in nons:
            d = sub(v1, v0)
            if isint(d) and d.a[0]:
                yield (path, ("ind", d.a[0]))
                return
        yield (path, "phi")

    def suffix(self, v0, v1):
        """pieces appended to v0 to get v1, or None"""
        p0 = v0.a if v0.op == "seq" else (("sp", v0),)
        p1 = v1.a if v1.op == "seq" else (("sp", v1),)
        n = len(p0)
        if p1[:n] == p0:
            return tuple(p1[n:])
        # constant merging at the seam
        if n and len(p1) >= n and p0[-1][0] == "k" and p1[: n - 1] == p0[:-1] and p1[n - 1][0] == "k":
            if p1[n - 1][1].startswith(p0[-1][1]):
                return (("k", p1[n - 1][1][len(p0[-1][1]) :]),) + tuple(p1[n:])
        return None


APP_LAWS = {}


def islen(t):
    c, vs = lin_parts(t)
    return bool(vs) and all(v.op in ("len", "plen") for v, _ in vs)


class CFG:
    def __init__(self, inst):
        self.inst = inst
        bl = inst["blocks"]
        n = len(bl)
        self.succ = [self.succs(bl[i][1]) if not bl[i][2] else [] for i in range(n)]
        self.find_loops(n)
        self._live = None

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto" or k == "drop":
            return [t[1]]
        if k == "switch":
            r = [b for _, b in t[3]]
            if t[4] is not None:
                r.append(t[4])
            return r
        if k == "assert":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    def find_loops(self, n):
        # iterative dominators
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, itr = st[-1]
            for x in itr:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self.succ[x])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        pred = {b: [] for b in order}
        for b in order:
            for x in self.succ[b]:
                pred[x].append(b)
        self.pred = pred
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                d = set.intersection(*(dom[p] for p in pred[b])) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.dom = dom
        self.order = order
        self.loops = {}
        for b in order:
            for x in self.succ[b]:
                if x in dom[b]:
                    body = self.loops.setdefault(x, {x})
                    w = [b]
                    while w:
                        y = w.pop()
                        if y not in body:
                            body.add(y)
                            w += pred[y]

    # ---- liveness of locals
    def live_at(self, bb):
        if self._live is None:
            self.compute_live()
        return self._live[bb]

    def compute_live(self):
        bl = self.inst["blocks"]
        use, deff = {}, {}
        borrowed = {0}
        nargs = self.inst["argc"]

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for x in p[1]:
                if isinstance(x, list) and x[0] == "i" and x[1] not in d:
                    u.add(x[1])

        def op_use(o, u, d):
            if o[0] in ("cp", "mv"):
                pl_use(o[1], u, d)

        for b in self.order:
            u, d = set(), set()
            for st in bl[b][0]:
                if st[0] == "=":
                    rv = st[2]
                    k = rv[0]
                    if k in ("use", "rep"):
                        op_use(rv[1], u, d)
                    elif k in ("ref", "raw"):
                        pl_use(rv[1], u, d)
                        if "*" not in rv[1][1]:
                            borrowed.add(rv[1][0])
                    elif k == "discr":
                        pl_use(rv[1], u, d)
                    elif k in ("cast", "un"):
                        op_use(rv[2], u, d)
                    elif k == "bin":
                        op_use(rv[2], u, d)
                        op_use(rv[3], u, d)
                    elif k == "agg":
                        for o in rv[2]:
                            op_use(o, u, d)
                    if st[1][1]:
                        pl_use(st[1], u, d)
                    else:
                        d.add(st[1][0])
                elif st[0] == "setd":
                    pl_use(st[1], u, d)
            t = bl[b][1]
            k = t[0]
            if k == "switch" or k == "assert":
                op_use(t[1], u, d)
            elif k == "call":
                if "indirect" in t[1]:
                    op_use(t[1]["indirect"], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                if t[3][1]:
                    pl_use(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif k == "ret":
                u.add(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for x in self.succ[b]:
                    o |= live[x]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = {b: live[b] | borrowed for b in self.order}
