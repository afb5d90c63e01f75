"""Hash-consed value terms and their normal forms.

Every scalar is a mathematical integer; machine wrap-around is explicit ('wrap').
Sequences (Vec, slice, String, ...) are concatenations of pieces.  Constructors
normalise, so equal behaviour written differently usually yields the same object.
"""
import itertools

_tab = {}
_ids = itertools.count()


class Term:
    __slots__ = ("op", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = next(_ids)
        _tab[k] = t
    return t


def I(v):
    return mk("int", int(v))


ZERO, ONE = I(0), I(1)
TRUE, FALSE = ONE, ZERO
UNIT = mk("tup")


def isint(t):
    return t.op == "int"


def unk(why, *a):
    """An unmodelled value."""
    return mk("unk", why, *a)


# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    if t.op == "int":
        return t.a[0], ()
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mk_lin(c, vs):
    vs = tuple(sorted(((t, k) for t, k in vs if k != 0), key=lambda p: p[0].id))
    if not vs:
        return I(c)
    if c == 0 and len(vs) == 1 and vs[0][1] == 1:
        return vs[0][0]
    return mk("lin", c, vs)


def add(a, b, kb=1):
    ca, va = lin_parts(a)
    cb, vb = lin_parts(b)
    d = {}
    for t, k in va:
        d[t] = d.get(t, 0) + k
    for t, k in vb:
        d[t] = d.get(t, 0) + k * kb
    return mk_lin(ca + cb * kb, d.items())


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, v = lin_parts(a)
    return mk_lin(c * k, [(t, x * k) for t, x in v])


def mul(a, b):
    if isint(a):
        return scale(b, a.a[0])
    if isint(b):
        return scale(a, b.a[0])
    if b.id < a.id:
        a, b = b, a
    return mk("mul", a, b)


# ---------------------------------------------------------------- sequences
# pieces (plain tuples):
#   ('k', bytes)            constant bytes
#   ('e', t)                one (non byte) element
#   ('be', n, t)            n bytes, big endian, of integer t (mod 256^n)
#   ('sp', t)               all elements of opaque sequence t
#   ('sl', t, from, to)     slice of an opaque sequence
#   ('rep', t, n)           n copies of element t
#   ('nt', name, t)         bytes produced by the codec of type `name` for value t
#   ('loop', uid, n, alts)  concatenation over k<n of alts; alts = ((guards, pieces),...)
#   ('acc', uid, ix)        what previous iterations of loop `uid` appended

def be_piece(n, t):
    while t.op == "wrap" and t.a[0] >= 8 * n:
        t = t.a[2]
    if isint(t):
        return ("k", (t.a[0] % (1 << 8 * n)).to_bytes(n, "big"))
    return ("be", n, t)


def seq(pieces):
    out = []
    for p in pieces:
        if p[0] == "sp" and p[1].op == "seq":
            sub_ = p[1].a
        elif p[0] == "rep" and isint(p[2]) and p[2].a[0] <= 64:
            sub_ = (("e", p[1]),) * p[2].a[0]
        elif p[0] == "k" and not p[1]:
            continue
        else:
            sub_ = (p,)
        for q in sub_:
            if q[0] == "be":
                q = be_piece(q[1], q[2])
            elif q[0] == "loop":
                q = eta_loop(q)
                if q is None:
                    continue
            if q[0] == "k" and out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + q[1])
            else:
                out.append(q)
    # merge single byte slices of one integer:  be(1, x>>8) be(1, x) -> be(2, x)
    out = merge_be(out)
    if len(out) == 1 and out[0][0] == "sp":
        return out[0][1]
    return mk("seq", *out)


def eta_loop(q):
    """for k<len(xs){xs[k]} = xs ; empty loops vanish"""
    if isint(q[2]) and q[2].a[0] == 0:
        return None
    if all(not ps for _, ps in q[3]):
        return None
    if len(q[3]) == 1 and len(q[3][0][1]) == 1:
        p = q[3][0][1][0]
        e = p[1] if p[0] == "e" else p[2] if p[0] == "be" and p[1] == 1 else None
        if e is not None and e.op == "elem" and e.a[1].op == "it" and e.a[1].a[0] == q[1] and q[2] is seq_len(e.a[0]):
            return ("sp", e.a[0])
        if (
            e is not None
            and e.op == "tup"
            and len(e.a) == 2
            and e.a[0].op == "fld"
            and e.a[1].op == "fld"
            and e.a[0].a[:3] == (e.a[1].a[0], None, 0)
            and e.a[1].a[2] == 1
            and e.a[0].a[0].op == "elem"
            and e.a[0].a[0].a[1].op == "it"
            and e.a[0].a[0].a[1].a[0] == q[1]
            and q[2] is seq_len(e.a[0].a[0].a[0])
        ):
            return ("sp", e.a[0].a[0].a[0])
    return q


def merge_be(out):
    i = 0
    res = []
    while i < len(out):
        p = out[i]
        if p[0] == "be" and p[1] == 1 and p[2].op == "bits":
            x, lo, w = p[2].a
            n = 1
            while (
                i + n < len(out)
                and out[i + n][0] == "be"
                and out[i + n][1] == 1
                and lo - 8 * n >= 0
                and is_slice(out[i + n][2], x, lo - 8 * n)
            ):
                n += 1
            if n > 1 and lo - 8 * (n - 1) == 0:
                res.append(be_piece(n, x))
                i += n
                continue
        res.append(p)
        i += 1
    return res


def is_slice(t, x, lo):
    while t.op == "wrap" and t.a[0] >= 8:
        t = t.a[2]
    if lo == 0 and t is x:
        return True
    return t.op == "bits" and t.a[0] is x and t.a[1] == lo and t.a[2] >= 8


def bytes_const(t):
    """bytes of a constant byte sequence, or None."""
    if t.op == "seq":
        if not t.a:
            return b""
        if len(t.a) == 1 and t.a[0][0] == "k":
            return t.a[0][1]
    return None


EMPTY = seq(())


def kseq(b):
    return seq((("k", bytes(b)),))


def piece_len(p):
    k = p[0]
    if k == "k":
        return I(len(p[1]))
    if k == "e":
        return ONE
    if k == "be":
        return I(p[1])
    if k == "sp":
        return seq_len(p[1])
    if k == "sl":
        return sub(p[3], p[2])
    if k == "rep":
        return p[2]
    if k == "skip":
        return p[1]
    if k == "lp":
        if isint(p[4]) and p[4].a[0] == 0:
            return piece_len(("loop",) + p[1:4])
        ls = {alt_len(a) for a in p[3]}
        if len(ls) == 1:
            (l,) = ls
            if isint(l):
                return mul(sub(p[2], p[4]), l)
        return mk("plen", p)
    if k == "loop":
        ls = {alt_len(a) for a in p[3]}
        if len(ls) == 1:
            (l,) = ls
            if isint(l):
                return mul(p[2], l)
        return mk("plen", p)
    if k == "acc" and len(p) == 5:
        return scale(p[3], p[4])
    return mk("plen", p)


def alt_len(a):
    r = ZERO
    for q in a[1]:
        r = add(r, piece_len(q))
    return r


def seq_len(t):
    if t.op in ("seq", "src"):
        r = ZERO
        for p in t.a:
            r = add(r, piece_len(p))
        return r
    if t.op in ("rdb", "rdrest"):
        return t.a[1]
    if t.op == "rest":
        return sub(seq_len(t.a[0]), seq_len(t.a[1]))
    if t.op == "app" and t.a[0] in ("sortk", "perm"):
        return seq_len(t.a[1])
    return mk("len", t)


# ---------------------------------------------------------------- substitution
def map_piece(p, f):
    k = p[0]
    if k == "k":
        return (p,)
    if k == "e":
        return (("e", f(p[1])),)
    if k == "be":
        return (("be", p[1], f(p[2])),)
    if k == "sp":
        return (("sp", f(p[1])),)
    if k == "sl":
        return (mk_slice(f(p[1]), f(p[2]), f(p[3])),)
    if k == "rep":
        return (("rep", f(p[1]), f(p[2])),)
    if k == "nt":
        return (("nt", p[1], f(p[2])),)
    if k == "skip":
        return (("skip", f(p[1])),)
    if k in ("loop", "lp"):
        return (
            (
                k,
                p[1],
                f(p[2]),
                tuple(
                    (
                        tuple((f(g), v) for g, v in gs),
                        tuple(q for x in ps for q in map_piece(x, f)),
                    )
                    for gs, ps in p[3]
                ),
            )
            + ((f(p[4]),) if k == "lp" else ()),
        )
    return (p,)


def mk_slice(t, a, b):
    if isint(a) and a.a[0] == 0 and b is seq_len(t):
        return ("sp", t)
    if t.op == "seq":
        s = slice_seq(t, a, b)
        if s is not None:
            return ("sp", s)
    return ("sl", t, a, b)


def slice_seq(t, a, b):
    """Slice a seq on piece boundaries / constants; None if not possible."""
    pos = ZERO
    out = []
    started = pos is a
    for p in t.a:
        if started and pos is b:
            return seq(out)
        l = piece_len(p)
        end = add(pos, l)
        if not started:
            if end is a:
                started = True
                pos = end
                continue
            if p[0] == "k" and isint(a) and isint(pos) and pos.a[0] < a.a[0] < end.a[0]:
                off = a.a[0] - pos.a[0]
                rest = p[1][off:]
                if isint(b) and b.a[0] <= end.a[0]:
                    return kseq(rest[: b.a[0] - a.a[0]])
                out.append(("k", rest))
                started = True
                pos = end
                continue
            pos = end
            continue
        if (
            p[0] == "k"
            and isint(b)
            and isint(pos)
            and pos.a[0] < b.a[0] < pos.a[0] + len(p[1])
        ):
            out.append(("k", p[1][: b.a[0] - pos.a[0]]))
            return seq(out)
        out.append(p)
        pos = end
    if started and pos is b:
        return seq(out)
    return None


def children(t):
    op = t.op
    if op in ("int", "sym", "fn", "it"):
        return ()
    if op == "lin":
        return tuple(v for v, _ in t.a[1])
    if op in ("seq", "src"):
        return tuple(c for p in t.a for c in piece_children(p))
    if op == "plen":
        return tuple(piece_children(t.a[0]))
    return tuple(x for x in t.a if isinstance(x, Term))


def piece_children(p):
    k = p[0]
    if k in ("e", "sp", "skip"):
        yield p[1]
    elif k == "be" or k == "nt":
        yield p[2]
    elif k == "sl":
        yield from p[1:]
    elif k == "rep":
        yield p[1]
        yield p[2]
    elif k in ("loop", "lp"):
        if k == "lp":
            yield p[4]
        yield p[2]
        for gs, ps in p[3]:
            for g, _ in gs:
                yield g
            for q in ps:
                yield from piece_children(q)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ---------------------------------------------------------------- printing
_budget = [0]


def show(t, d=0):
    if d == 0:
        _budget[0] = 3000
    _budget[0] -= 1
    if d > 14 or _budget[0] < 0:
        return "..."
    op, a = t.op, t.a
    if op == "int":
        return str(a[0])
    if op == "sym":
        return str(a[0])
    if op == "lin":
        s = []
        for v, k in a[1]:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(v, d + 1))
        if a[0]:
            s.append(str(a[0]))
        return "(" + " + ".join(s) + ")"
    if op in ("seq", "src"):
        return ("" if op == "seq" else "src") + "[" + ", ".join(show_piece(p, d + 1) for p in a) + "]"
    if op == "plen":
        return "len(%s)" % show_piece(a[0], d + 1)
    if op == "fld":
        v = "" if a[1] is None else "@%s" % a[1]
        return "%s%s.%s" % (show(a[0], d + 1), v, a[2])
    if op == "elem":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if op == "adt":
        return "%s#%s(%s)" % (
            a[0],
            a[1],
            ", ".join(show(x, d + 1) for x in a[2:]),
        )
    return "%s(%s)" % (
        op,
        ", ".join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in a),
    )


def show_piece(p, d=0):
    if d == 0:
        _budget[0] = 3000
        d = 1
    if _budget[0] < 0:
        return "..."
    if p[0] == "k":
        return repr(p[1])[1:]
    if p[0] == "be":
        return "u%d:%s" % (p[1], show(p[2], d + 1))
    if p[0] in ("loop", "lp"):
        return ("" if p[0] == "loop" else "@" + show(p[4], d + 1)) + "for %s<%s{%s}" % (
            p[1],
            show(p[2], d + 1),
            " | ".join(
                "[%s] %s"
                % (
                    ",".join("%s=%s" % (show(g, d + 1), v) for g, v in gs),
                    " ".join(show_piece(q, d + 1) for q in ps),
                )
                for gs, ps in p[3]
            ),
        )
    return "%s:%s" % (
        p[0],
        ",".join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in p[1:]),
    )
