"""C07: strings and modified UTF-8."""
from strs import *

RULE = (
    "The loops of the encoder and decoder are explored token by token (every kind of code point, after every kind of "
    "predecessor, and the end of the string) to a fixpoint of their states; the bytes appended for each token are compared, as "
    "boolean functions of the input bits, with the JVMS 4.4.7 encoding. The decoder is also explored on arbitrary bytes: it "
    "must not panic, and what it returns must have been validated."
)
ASSUMPTIONS = [
    "validating accepts every well-formed WTF-8 sequence (decided by C08)",
    "strings are well-formed WTF-8 (decided by C08)",
    "lengths stay below 2^56",
]


def is_ok(v):
    return v.op == "adt" and v.a[1] == 0


def cpval(els):
    """code point of the bytes of one WTF-8 sequence, as a term"""
    n = len(els)
    m = {1: 0x7F, 2: 0x1F, 3: 0x0F, 4: 0x07}[n]
    r = mk("band", I(m), els[0])
    for e in els[1:]:
        r = add(scale(r, 64), mk("band", I(0x3F), e))
    return r


def bitf(x, lo, w):
    return mk("bits", x, lo, w)


def enc3(c):
    return [add(I(0xE0), bitf(c, 12, 4)), add(I(0x80), bitf(c, 6, 6)), add(I(0x80), bitf(c, 0, 6))]


def mutf8(c, n, zero=False):
    """modified UTF-8 of a code point whose WTF-8 form has n bytes"""
    if n == 1 and not zero:
        return [c]
    if n <= 2:
        return [add(I(0xC0), bitf(c, 6, 5)), add(I(0x80), bitf(c, 0, 6))]
    if n == 3:
        return enc3(c)
    d = add(c, I(-0x10000))
    return enc3(add(I(0xD800), bitf(d, 10, 10))) + enc3(add(I(0xDC00), bitf(d, 0, 10)))


def mutf8_spec_tokens():
    """WTF-8 tokens with the modified UTF-8 bytes each stands for"""
    S = {"n": [], "h": []}
    for q in S:
        for n, p in BMP + SUPP + [("lead surrogate", HIGH)] + ([("trail surrogate", LOW)] if q == "n" else []):
            to = "h" if n == "lead surrogate" else "n"
            if n == "ascii":
                S[q].append(Move("nul", [[(0, 0)]], to, lambda e: mutf8(e[0], 1, True)))
                S[q].append(Move("ascii", [[(1, 127)]], to, lambda e: mutf8(e[0], 1)))
            else:
                S[q].append(Move(n, p, to, lambda e: mutf8(cpval(e), len(e))))
    return S


class Trans(Explorer):
    """checks what each token appends to the accumulator that becomes the result"""

    def init(self):
        self.fails = {}   # (loop, leaf) -> [(token, box, kind, text)]
        self.ok = {}
        self.starts = {}

    def explore(self, *a):
        n = len(self.loops)
        r = super().explore(*a)
        self.starts[n] = dict(self.start_out)
        return r

    def on_token(self, no, q, m, b, st, app):
        els = [self.el(j) for j in range(len(b))]
        want = m.out(els) if m.out else None
        for lf, suf in app.items():
            k = (no, lf)
            r = self.same(st, suf, want) if want is not None else None
            if r is None:
                self.ok[k] = self.ok.get(k, 0) + 1
            else:
                self.fails.setdefault(k, []).append((m.name, b) + r)

    def same(self, st, suf, want):
        got = bytes_of(suf)
        if got is None:
            return ("?", "not a sequence of bytes: " + show(mk("seq", *suf))[:200])
        if any(has_unk(g) for g in got) or any(has_unk(x[0]) for x in st.f.order):
            return ("?", "unmodelled values")
        if len(got) != len(want):
            return ("!", "%d bytes instead of %d" % (len(got), len(want)))
        try:
            B = Bits(st.f)
            for g, w in zip(got, want):
                B.comp(g), B.comp(w)
            if B.assume(st.f.order) == 0:
                return None
            for i, (g, w) in enumerate(zip(got, want)):
                c = B.equal(g, w)
                if c is not None:
                    return ("!", "byte %d is %s, wrong for %s" % (i + 1, show(g)[:100], ", ".join("%s=%02x" % (show(a), x) for a, x in c.items())))
        except NoBits as e:
            return ("?", "term not compiled: %s" % e)
        return None


def bytes_of(suf):
    r = []
    for p in suf:
        if p[0] == "k":
            r += [I(x) for x in p[1]]
        elif p[0] == "e":
            r.append(p[1])
        elif p[0] == "be" and p[1] == 1:
            r.append(p[2])
        else:
            return None
    return r


def transcode(R, C, mir, path, spec, what, intercept, result, arbitrary=False):
    ip = C.ip
    found = insts_of(mir, path)
    for ii in found:
        s = ip.new_state()
        ti = ip.ty[mir["insts"][ii]["locals"][1]]["t"]
        buf = mk("sym", "buf", ti)
        X = Trans(ip, ii, buf, C.tyid("u8"), spec, "n")
        X.free = arbitrary
        X.init()
        ip.loop_hook, ip.intercept = X.hook, intercept
        ip.steps, ip.max_steps = 0, 3000000
        try:
            outs = ip.run_fn(s, ii, [mk("ref", s.alloc(buf), ())])
        except (GiveUp, Budget, Infeasible) as e:
            ip.stack.clear()
            R.undecided(what, "%s %s" % (type(e).__name__, e))
            return
        finally:
            ip.loop_hook, ip.intercept = None, {}
        R.count("explored tokens", X.nmoves)
        if not X.loops:
            R.undecided(what, "no loop over the string was recognised")
            return
        for o in outs:
            e = X.exit_of(o.s)
            q, kind, m = (e[1], e[2], e[3].name if e[3] else "") if e else ("?", "?", "")
            where = "%s, %s%s" % (what, "at the end" if kind == "end" else "at ", m)
            if tainted(o.s):
                R.undecided(where, "unmodelled guards")
                continue
            if o.k != "ret":
                R.bad("%s:panic:%s" % (what, m), "%s: may panic: %s" % (where, o.v))
                continue
            v = ip.deep(o.s, o.v)
            result(X, R, what, where, v, q, kind, e)
    if not found:
        R.undecided(what, "the function is not there")


def accumulated(X, R, what, where, v, e):
    """the result is exactly what the loop accumulated"""
    for lf, st in X.starts.get(e[0], {}).items():
        if v is X.acc(*lf):
            if st is not EMPTY:
                R.bad(what + ":start", "%s: the output starts with %s" % (where, show(st)[:100]))
                return True
            if e[2] != "end":
                R.bad(what + ":early", "%s: the rest of the string is dropped" % where)
                return True
            fs = X.fails.get((e[0], lf), [])
            for name, b, k, text in fs:
                if k == "?":
                    R.undecided("%s %s" % (what, name), text)
                else:
                    R.bad("%s:%s" % (what, name), "%s of %s (%s): %s" % (what, name, " ".join("%02x..%02x" % x for x in b), text))
            if not fs:
                R.good("%s, %s" % (where, e[1]), X.ok.get((e[0], lf), 0) + 1)
            return True
    return False


def encoded(X, R, what, where, v, q, kind, e):
    if e is None:
        R.undecided(where, "a result without the loop")
    elif not accumulated(X, R, what, where, v, e):
        if has_unk(v):
            R.undecided(where, show(v)[:200])
        else:
            R.bad(what + ":result", "%s: the result is %s" % (where, show(v)[:200]))


def decoded(X, R, what, where, v, q, kind, e):
    if v.op != "adt" or e is None:
        R.undecided(where, show(v)[:200])
        return
    if v.a[1] == 1:
        if has_unk(v):
            R.undecided(where, show(v)[:200])
        else:
            R.bad(what + ":refused", "%s: valid modified UTF-8 is refused: %s" % (where, show(v)[:200]))
        return
    x = content(v.a[2])
    if x is X.buf:
        if e[2] != "end" or e[0] != 0 or q.startswith("m"):
            R.bad(what + ":verbatim", "%s: a string with an encoded NUL or surrogate pair is returned as it is" % where)
        else:
            R.good(where + " (verbatim)")
    elif not accumulated(X, R, what, where, x, e):
        if has_unk(x):
            R.undecided(where, show(v)[:200])
        else:
            R.bad(what + ":result", "%s: the result is %s" % (where, show(x)[:200]))


def content(v):
    while v.op == "adt" and len(v.a) == 3:
        v = v.a[2]
    return v


def decode_spec():
    """modified UTF-8 tokens with the WTF-8 bytes each stands for"""
    ident = lambda e: list(e)

    def pair(e):
        hi = add(scale(bitf(e[1], 0, 4), 64), bitf(e[2], 0, 6))
        lo = add(scale(bitf(e[4], 0, 4), 64), bitf(e[5], 0, 6))
        c = add(I(0x10000), add(scale(hi, 1024), lo))
        return [add(I(0xF0), bitf(c, 18, 3)), add(I(0x80), bitf(c, 12, 6)), add(I(0x80), bitf(c, 6, 6)), add(I(0x80), bitf(c, 0, 6))]

    S = {}
    for mod in "", "m":
        for q in "n", "h":
            L = S[mod + q] = []
            for n, p in BMP:
                L.append(Move(n, [[(1, 127)]] if n == "ascii" else p, mod + "n", ident))
            L.append(Move("nul", [[(0xC0, 0xC0)], [(0x80, 0x80)]], "mn", lambda e: [I(0)]))
            L.append(Move("lead surrogate at the end", HIGH, mod + "h", ident, la="end"))
            L.append(Move("lead surrogate", HIGH, mod + "h", ident, la=[[(1, 127), (0xC0, 0xC0), (0xC2, 0xEC), (0xEE, 0xEF)]]))
            L.append(Move("lead surrogate before ed", HIGH, mod + "h", ident, la=[[(0xED, 0xED)], [(0x80, 0xAF)]]))
            L.append(Move("surrogate pair", HIGH + LOW, "mn", pair))
            if q == "n":
                L.append(Move("trail surrogate", LOW, mod + "n", ident))
    return S


def run(R, mir):
    C = Codecs(mir)
    ip = C.ip
    ip.fork_asserts = True
    transcode(R, C, mir, "coffer::mod_utf8::string_to_modified_utf8", mutf8_spec_tokens(), "encoding", {}, encoded)
    ok = {"wtf_8::validate_wtf8": lambda s, vals, dti: [Out("ret", s, ip.adt(dti, 0, UNIT))]}
    transcode(R, C, mir, "coffer::mod_utf8::modified_utf8_to_string", decode_spec(), "decoding", ok, decoded)
    # arbitrary bytes: no panic, and only validated strings come out
    valid = []

    def validate(s, vals, dti):
        valid.append(content(ip.deep(s, vals[0])))
        t = s.copy()
        errti = ip.ty[dti]["args"][1]
        return [Out("ret", s, ip.adt(dti, 0, UNIT)), Out("ret", t, ip.adt(dti, 1, mk("sym", "refused", errti)))]

    def checked(X, R, what, where, v, q, kind, e):
        if v.op != "adt":
            R.undecided(where, show(v)[:200])
        elif v.a[1] == 1 or content(v.a[2]) in valid:
            R.good(where)
        elif has_unk(v):
            R.undecided(where, show(v)[:200])
        else:
            R.bad(what + ":unchecked", "%s: %s is returned without validation" % (where, show(v)[:200]))

    anything = {"n": [Move("any byte", [[ANY]], "n", None)]}
    transcode(R, C, mir, "coffer::mod_utf8::modified_utf8_to_string", anything, "decoding arbitrary bytes", {"wtf_8::validate_wtf8": validate}, checked, True)
    R.floor("explored tokens", 40)
