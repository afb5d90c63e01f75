"""C04: offsets, sizes, positions and padding of whole method bodies."""
from codelib import *

RULE = (
    "The MIR of the code writer is abstractly interpreted on families of method bodies whose jumps, subroutine calls, switches, "
    "labels, line numbers, exception handlers and local variables surround switches with an arbitrary number of entries (so that "
    "distances are arbitrary). On every path the emitted code is decoded instruction by instruction with the JVM specification; "
    "positions are linear terms. Every branch offset must equal the position of its label minus the position of the opcode and fit "
    "its operand, switches must be padded, sorted and counted, the code length must be the number of emitted bytes and at most "
    "65535, table entries must carry the positions of their labels, and a body may only be rejected when a label is missing, a "
    "table switch is empty or overflows, or the code is too long. The reader is interpreted on assembled bodies and must attach "
    "labels and line numbers to the instructions at the referenced positions."
)
ASSUMPTIONS = [
    "labels are defined at most once; a method body has fewer than 2^20 switch entries",
    "the families are representative: the layout algorithm treats every jump by the same code, and the loops over jumps, labels "
    "and tables are interpreted on up to six elements",
    "instructions other than jumps and switches are decided by C03",
]

COND = {}
for _op, (_p, _o) in jvms.OPS.items():
    if isinstance(_p, tuple) and _p[0] == "Jump" and _op not in (167, 200):
        COND[_op] = _p[1][0]
    if isinstance(_p, list):
        for _q in _p:
            if _q[0] == "Jump" and _op not in (167, 200):
                COND[_op] = _q[1][0]
GOTO, JSR, GOTO_W, JSR_W = 167, 168, 200, 201
LIMIT = 1 << 20


def inverse(op):
    return op ^ 1 if op >= 198 else ((op + 1) ^ 1) - 1


class Bodies:
    def __init__(self, L):
        self.L = L
        self.lt = L.variant(L.ity, "Label")[1][0][1]
        self.jc = L.variant(L.ity, "Jump")[1][0][1]
        self.usize = L.C.tyid("usize")

    def lab(self, k):
        return self.L.ip.adt(self.lt, 0, I(k))

    def sym(self, n, t):
        return mk("sym", n, self.L.u[t])

    def cond(self, c):
        if c == "any":
            return mk("sym", "cond", self.jc)
        return self.L.build(self.jc, (c,), {})

    def insn(self, d):
        L, k = self.L, d[0]
        if k == "label":
            p = ("Label", self.lab(d[1]))
        elif k == "nop":
            p = ("NoOp",)
        elif k == "line":
            p = ("LineNumber", self.sym("line" + d[1], "u16"))
        elif k == "jump":
            p = ("Jump", self.cond(d[1]), self.lab(d[2]))
        elif k == "jsr":
            p = ("Jsr", self.lab(d[1]))
        elif k == "ts":
            _, n, df, offs = d
            if isinstance(offs, int):
                o = seq((("rep", self.lab(offs), mk("sym", "n" + n, self.usize)),))
            else:
                o = seq([("e", self.lab(x)) for x in offs])
            p = ("TableSwitch", self.lab(df), self.sym("low" + n, "i32"), o)
        elif k == "ls":
            _, n, df, offs = d
            p = ("LookupSwitch", self.lab(df), seq([("e", mk("tup", self.sym("key%s%d" % (n, i), "i32"), self.lab(x))) for i, x in enumerate(offs)]))
        else:
            raise AssertionError(d)
        return L.build(L.ity, p, {})

    def start(self, body):
        s = self.L.fresh()
        for d in body:
            if d[0] == "ts" and isinstance(d[3], int):
                s.f.bound(mk("sym", "n" + d[1], self.usize), 0, LIMIT)
            if d[0] == "ls":
                ks = [self.sym("key%s%d" % (d[1], i), "i32") for i in range(len(d[3]))]
                for i in range(len(ks)):
                    for j in range(i):
                        s.f.exclude(sub(ks[i], ks[j]), 0)
        return s


def mod4(m, t):
    c, vs = lin_parts(t)
    if any(k % 4 for _, k in vs):
        raise Unknown("alignment of " + show(t)[:100])
    return c % 4


class Walk:
    """decodes a body; offsets are checked once all labels are placed"""

    def __init__(self, m, B):
        self.m, self.B = m, B
        self.pos = ZERO
        self.at = {}
        self.offs = []
        self.lines = []

    def adv(self, n):
        self.pos = add(self.pos, I(n) if isinstance(n, int) else n)

    def off(self, w, label, base, what):
        self.offs.append((self.m.raw(w), w, label, base, what))

    def op(self):
        k = self.m.f.value(self.m.raw(1))
        if k is None:
            raise Mismatch("opcode is not determined")
        return k

    def step(self, d):
        m, k = self.m, d[0]
        p = self.pos
        if k == "label":
            self.at[d[1]] = p
        elif k == "line":
            self.lines.append((p, self.B.sym("line" + d[1], "u16")))
        elif k == "nop":
            if self.op() != 0:
                raise Mismatch("nop expected")
            self.adv(1)
        elif k in ("jump", "jsr"):
            op = self.op()
            if k == "jsr":
                if op not in (JSR, JSR_W):
                    raise Mismatch("opcode %d for a subroutine call" % op)
                self.off(2 if op == JSR else 4, d[1], p, "jsr")
                self.adv(3 if op == JSR else 5)
                return
            c = V(m, self.B.cond(d[1]), self.B.jc).variant()
            if c == "Always":
                if op not in (GOTO, GOTO_W):
                    raise Mismatch("opcode %d for an unconditional jump" % op)
                self.off(2 if op == GOTO else 4, d[2], p, "goto")
                self.adv(3 if op == GOTO else 5)
            elif COND.get(op) == c:
                self.off(2, d[2], p, "conditional jump")
                self.adv(3)
            elif op in COND and COND.get(inverse(op)) == c:
                m.u2(I(8), "offset of the inverted jump")
                if self.op() != GOTO_W:
                    raise Mismatch("the inverted jump is not followed by goto_w")
                self.off(4, d[2], add(p, I(3)), "goto_w of the inverted jump")
                self.adv(8)
            else:
                raise Mismatch("opcode %d for a jump on %s" % (op, c))
        elif k == "ts":
            if self.op() != jvms.TABLESWITCH:
                raise Mismatch("tableswitch expected")
            self.adv(1)
            self.pad()
            self.off(4, d[2], p, "default of the switch")
            low = self.B.sym("low" + d[1], "i32")
            n = mk("sym", "n" + d[1], self.B.usize) if isinstance(d[3], int) else I(len(d[3]))
            m.u4(low, "low")
            high = sub(add(low, n), ONE)
            if m.f.range(high)[1] > 0x7FFFFFFF or m.f.range(n)[0] < 1:
                raise Mismatch("a switch whose bounds are not representable is written")
            m.u4(high, "high")
            self.adv(12)
            if isinstance(d[3], int):
                self.rep(n, d[3], p)
            else:
                for x in d[3]:
                    self.off(4, x, p, "entry of the switch")
            self.adv(scale(n, 4))
        elif k == "ls":
            if self.op() != jvms.LOOKUPSWITCH:
                raise Mismatch("lookupswitch expected")
            self.adv(1)
            self.pad()
            self.off(4, d[2], p, "default of the switch")
            m.u4(I(len(d[3])), "npairs")
            self.adv(8)
            left = {i: x for i, x in enumerate(d[3])}
            last = None
            for _ in d[3]:
                got = m.raw(4)
                for i in left:
                    key = self.B.sym("key%s%d" % (d[1], i), "i32")
                    if got is key or m.f.wrap(32, False, got) is m.f.wrap(32, False, key):
                        break
                else:
                    raise Mismatch("the key %s of the switch is not one of the remaining keys" % show(got)[:80])
                if last is not None and m.f.range(sub(key, last))[0] < 1:
                    raise Mismatch("the keys of a lookupswitch are not in ascending order")
                last = key
                self.off(4, left.pop(i), p, "entry of the switch")
                self.adv(8)

    def pad(self):
        while mod4(self.m, self.pos):
            self.m.u1(I(0), "padding of the switch")
            self.adv(1)

    def rep(self, n, label, p):
        """the entries of a switch all of whose entries are the same label"""
        m = self.m
        r = m.rest()
        q = r.a[0] if r.a else None
        if q is None or q[0] not in ("lp", "rep"):
            raise Mismatch("expected the entries of the switch, found " + (show_piece(q)[:100] if q else "nothing"))
        if q[0] == "rep":
            raise Unknown("repeated entries")
        _, uid, cnt, alts, k = q
        if m.f.value(sub(cnt, n)) != 0:
            raise Mismatch("the switch announces %s entries but has %s" % (show(n), show(cnt)))
        for gs, ps in alts:
            b = seq(list(ps))
            if m.f.value(seq_len(b)) != 4:
                raise Mismatch("an entry of a switch is %s" % show(b)[:100])
            self.offs.append((m.be(b, 4), 4, label, p, "entry of the switch"))
        m.ip.store(m.s, m.loc, mk("src", *r.a[1:]))

    def finish(self):
        m = self.m
        for got, w, label, base, what in self.offs:
            if label not in self.at:
                raise Mismatch("a jump to a label that is not in the code is written")
            want = sub(self.at[label], base)
            lo, hi = m.f.range(want)
            if lo < -(1 << 8 * w - 1) or hi >= 1 << 8 * w - 1:
                raise Mismatch("%s: distance in %d..=%d does not fit %d bytes" % (what, lo, hi, w))
            g, x = m.f.wrap(8 * w, False, got), m.f.wrap(8 * w, False, want)
            if g is not x and m.f.value(sub(g, x)) != 0 and got is not want and m.f.value(sub(got, want)) != 0:
                if has_unk(got):
                    raise Unknown(show(got)[:200])
                raise Mismatch("%s: offset is %s, the distance is %s" % (what, show(got)[:200], show(want)[:200]))

    def same_pos(self, got, label, what):
        if label not in self.at:
            raise Mismatch("%s refers to a label that is not in the code" % what)
        self.m.same(got, self.at[label], what)


def longest(body):
    """the size of the body when every jump is in its longest form"""
    n = ZERO
    for d in body:
        if d[0] == "nop":
            n = add(n, ONE)
        elif d[0] in ("jump", "jsr"):
            n = add(n, I(8 if d[0] == "jump" and d[1] != "Always" else 5))
        elif d[0] == "ts":
            n = add(n, add(I(16), scale(d[4], 4)))
        elif d[0] == "ls":
            n = add(n, I(12 + 8 * len(d[3])))
    return n


def refusable(m, B, body, catches, attrs):
    f = m.f
    defined = {d[1] for d in body if d[0] == "label"}
    used = set()
    n = ZERO
    for d in body:
        if d[0] == "jump":
            used.add(d[2])
        elif d[0] == "jsr":
            used.add(d[1])
        elif d[0] in ("ts", "ls"):
            used.add(d[2])
            used.update([d[3]] if isinstance(d[3], int) else d[3])
    for c in catches:
        used.update(c[:3])
    for a in attrs:
        used.update((a[0], a[1]))
    if used - defined:
        return True
    for d in body:
        if d[0] == "ts":
            c = mk("sym", "n" + d[1], B.usize) if isinstance(d[3], int) else I(len(d[3]))
            if f.value(c) == 0 or f.range(sub(add(B.sym("low" + d[1], "i32"), c), ONE))[0] > 0x7FFFFFFF:
                return True
            if f.value(mk("ovf", 32, True, sub(add(B.sym("low" + d[1], "i32"), c), ONE))) == 1:
                return True
            n = add(n, scale(c, 4))
            n = add(n, I(16))
        elif d[0] == "nop":
            n = add(n, ONE)
        elif d[0] in ("jump", "jsr"):
            n = add(n, I(8 if d[0] == "jump" and d[1] != "Always" else 5))
        elif d[0] == "ls":
            n = add(n, I(12 + 8 * len(d[3])))
    return f.range(n)[0] > 65535


def nop(k):
    return [("nop",)] * k


def families(thorough):
    A, E = "Always", "IntegerEqualsZero"
    F = {}
    la = lambda k: ("label", k)
    fill = lambda n, k=0: ("ts", n, k, k)
    F["backward jump"] = [la(0), fill("a"), ("jump", "any", 0)]
    F["forward jump"] = [("jump", "any", 0), fill("a"), la(0)]
    for k in range(1, 4):
        F["backward jump %d" % k] = [la(0), fill("a")] + nop(k) + [("jump", A, 0), ("nop",), ("jump", E, 0)]
        F["forward jump %d" % k] = [("jump", A, 0), ("nop",), ("jump", E, 0), fill("a")] + nop(k) + [la(0)]
    F["jump to itself"] = [la(0), ("jump", "any", 0)]
    F["jump to the end"] = [("jump", "any", 0), la(0)]
    F["backward jsr"] = [la(0), fill("a"), ("jsr", 0)]
    F["forward jsr"] = [("nop",), ("jsr", 0), fill("a"), la(0), ("nop",)]
    for k in range(4):
        F["aligned switch %d" % k] = nop(k) + [la(0), ("ts", "a", 0, 0), ("nop",), ("jump", A, 0)]
        F["aligned lookup %d" % k] = nop(k) + [la(0), ("ls", "a", 1, [0, 1]), la(1), ("nop",)]
    for i, (c1, c2) in enumerate([(A, E), (E, A), (E, E), (A, A)]):
        F["two forward jumps %d" % i] = [("jump", c1, 0), ("nop",), ("jump", c2, 1), fill("a"), la(0), ("nop",), fill("b"), la(1)]
        F["crossing jumps %d" % i] = [la(0), ("nop",), ("jump", c1, 1), fill("a"), ("jump", c2, 0), fill("b"), la(1), ("nop",)]
        F["nested jumps %d" % i] = [("jump", c1, 0), ("jump", c2, 0), fill("a"), la(0)]
        F["two backward jumps %d" % i] = [la(0), fill("a"), ("jump", c1, 0), ("nop",), ("jump", c2, 0)]
    for k in range(4):
        F["over a wide jump %d" % k] = [("jump", A, 0), ("jump", E, 1), fill("a")] + nop(k) + [la(0), fill("b"), la(1), ("nop",)]
        F["over two wide jumps %d" % k] = [("jump", E, 0), ("jump", E, 1), ("jump", E, 1), fill("a")] + nop(k) + [la(0), fill("b"), la(1), ("nop",)]
        F["back over wide jumps %d" % k] = [la(1), fill("b"), la(0), fill("a")] + nop(k) + [("jump", E, 1), ("jump", A, 1), ("jump", E, 0)]
        for j in range(4):
            F["over two switches %d %d" % (k, j)] = nop(k) + [("jump", A, 0), ("ts", "b", 0, [0]), ("nop",), fill("a")] + nop(j) + [la(0), ("nop",)]
            F["back over two switches %d %d" % (k, j)] = [la(0)] + nop(k) + [("ts", "b", 0, [0]), ("nop",), fill("a")] + nop(j) + [("jump", E, 0)]
            F["back over two lookups %d %d" % (k, j)] = [la(0)] + nop(k) + [("ls", "b", 0, [0]), ("nop",), ("ls", "c", 0, [0]), ("nop",), fill("a")] + nop(j) + [("jump", E, 0)]
        F["over two lookups %d" % k] = nop(2) + [("jump", A, 0), ("ls", "b", 0, [0]), ("nop",), ("ls", "c", 0, [0]), ("nop",), fill("a")] + nop(k) + [la(0), ("nop",)]
    F["jump over a jump"] = [("jump", E, 0), ("jump", A, 1), la(0), fill("a"), la(1), ("nop",)]
    F["switch before jumps"] = [("ts", "a", 1, [0, 1, 0]), ("jump", E, 1), la(0), fill("b"), la(1), ("nop",)]
    F["switch after jumps"] = [la(0), fill("a"), ("jump", E, 0), la(1), ("ts", "b", 0, [1, 2]), la(2), ("nop",)]
    F["lookup after jumps"] = [la(0), fill("a"), ("jump", A, 0), la(1), ("ls", "b", 0, [1, 2, 0]), la(2), ("nop",)]
    F["lookup before jumps"] = [("nop",), ("ls", "b", 2, [1, 0]), la(0), ("jump", E, 2), fill("a"), la(1), ("nop",), la(2)]
    F["empty lookup"] = [("nop",), ("ls", "b", 0, []), la(0)]
    F["missing label"] = [("nop",), ("jump", "any", 7), la(0)]
    F["missing switch label"] = [la(0), ("ts", "a", 0, [0, 7])]
    F["missing default"] = [la(0), ("ls", "a", 7, [0])]
    F["missing jsr label"] = [la(0), ("jsr", 7)]
    F["several labels"] = [la(0), la(1), ("jump", A, 2), la(3), fill("a"), la(4), ("jump", E, 3), ("jump", A, 1), la(2), ("nop",), ("jump", E, 4)]
    if thorough:
        for i, (c1, c2, c3) in enumerate([(E, A, E), (A, E, A), (E, E, E)]):
            F["three jumps %d" % i] = [("jump", c1, 2), ("nop",), ("jump", c2, 1), fill("a"), la(1), ("jump", c3, 2), ("nop",), fill("b"), la(2)]
            F["three mixed jumps %d" % i] = [la(0), ("jump", c1, 1), fill("a"), la(2), ("jump", c2, 0), ("nop",), la(1), fill("b"), ("jump", c3, 2)]
        for k in range(4):
            F["switch %d after a wide jump" % k] = [("jump", E, 0)] + nop(k) + [fill("a"), ("ls", "b", 0, [0, 1]), la(1), ("nop",), la(0)]
    return F


def tables():
    """bodies with line numbers, exception handlers and local variables"""
    E, A = "IntegerEqualsZero", "Always"
    la = lambda k: ("label", k)
    out = {}
    body = [la(0), ("line", "x"), ("nop",), ("jump", E, 3), ("line", "y"), la(1), ("ts", "a", 0, 0), ("line", "z"), la(2), ("nop",), la(3), ("line", "w")]
    out["lines"] = (body, [], [])
    out["handlers"] = ([x for x in body if x[0] != "line"], [(0, 1, 2, "h"), (1, 3, 0, None)], [])
    out["variables"] = ([x for x in body if x[0] != "line"], [], [(0, 2, True, True), (1, 3, True, False), (0, 3, False, True)])
    out["all tables"] = (body, [(0, 3, 2, None)], [(1, 2, True, True)])
    out["missing handler"] = ([la(0), ("nop",), la(1)], [(0, 1, 7, None)], [])
    out["missing range"] = ([la(0), ("nop",), la(1)], [(0, 7, 1, "h")], [])
    out["missing variable range"] = ([la(0), ("nop",), la(1)], [], [(0, 7, True, False)])
    return out


def catch_ty(L):
    return L.C.ty.elem(L.fl["catches"])


def build_catches(L, B, cs):
    ti = catch_ty(L)
    names = [n for n, _ in L.C.ty[ti]["v"][0]["f"]]
    fl = dict(L.C.ty[ti]["v"][0]["f"])
    out = []
    for i, (a, b, h, t) in enumerate(cs):
        o = fl["catch"]
        ct = L.ip.adt(o, 0) if t is None else L.ip.adt(o, 1, mk("sym", t, L.C.ty[o]["v"][1]["f"][0][1]))
        vals = dict(start=B.lab(a), end=B.lab(b), handler=B.lab(h), catch=ct)
        out.append(L.ip.adt(ti, 0, *[vals[n] for n in names]))
    return out


def build_vars(L, B, vs):
    """the local variables attribute"""
    if not vs:
        return []
    ati = L.C.ty.elem(L.fl["attrs"])
    vi, fs = L.variant(ati, "LocalVariables")
    lti = L.C.ty.elem(fs[0][1])
    fl = L.C.ty[lti]["v"][0]["f"]
    out = []
    for i, (a, b, d, g) in enumerate(vs):
        vals = {}
        for n, t in fl:
            if n in ("start", "end"):
                vals[n] = B.lab(a if n == "start" else b)
            elif n in ("descriptor", "signature"):
                on = d if n == "descriptor" else g
                vals[n] = L.ip.adt(t, 1, mk("sym", "%s%d" % (n, i), L.C.ty[t]["v"][1]["f"][0][1])) if on else L.ip.adt(t, 0)
            else:
                vals[n] = mk("sym", "%s%d" % (n, i), t)
        out.append(L.ip.adt(lti, 0, *[vals[n] for n, _ in fl]))
    return [L.ip.adt(ati, vi, seq([("e", x) for x in out]))]


def code_attr(L, name):
    return L.variant(L.C.ty.elem(L.fl["attrs"]), name)


def build_notes(L, B, catches, notes):
    """a type annotation attribute whose targets refer to handlers and places of the code"""
    if not notes:
        return []
    vi, fs = code_attr(L, "VisibleTypeAnnotations")
    nti = L.C.ty.elem(fs[0][1])
    fl = dict(L.C.ty[nti]["v"][0]["f"])
    tt = fl["target"]
    cs = build_catches(L, B, catches)
    out = []
    for k, x in notes:
        ti, tf = L.variant(tt, k)
        if k == "CatchParameter":
            t = L.ip.adt(tt, ti, cs[x])
        elif k == "LocalVariable":
            et = L.C.ty.elem(tf[0][1])
            ef = L.C.ty[et]["v"][0]["f"]
            vals = dict(start=B.lab(x[0]), end=B.lab(x[1]), idx=B.sym("slot", "u16"))
            t = L.ip.adt(tt, ti, seq([("e", L.ip.adt(et, 0, *[vals[n] for n, _ in ef]))]))
        else:
            t = L.ip.adt(tt, ti, B.lab(x))
        vals = dict(target=t, type_path=EMPTY, annotation_type=L.build(fl["annotation_type"], ("Int",), {}), element_values=EMPTY)
        out.append(L.ip.adt(nti, 0, *[vals[n] for n, _ in L.C.ty[nti]["v"][0]["f"]]))
    return [L.ip.adt(L.C.ty.elem(L.fl["attrs"]), vi, seq([("e", x) for x in out]))]


def same_catch(m, a, b):
    """the handlers are equal whatever their types are"""
    return a[:3] == b[:3] and a[3] == b[3]


def check_notes(m, L, W, catches, notes, B):
    m.raw(2)
    m.raw(4)
    m.u2(I(len(notes)), "number of type annotations")
    for k, x in notes:
        tag = m.f.value(m.raw(1))
        if tag != {"CatchParameter": 0x42, "LocalVariable": 0x40, "InstanceOf": 0x43}[k]:
            raise Mismatch("target tag of a type annotation is %s" % (tag,))
        if k == "CatchParameter":
            i = m.f.value(m.raw(2))
            if i is None:
                raise Unknown("the handler of the annotation")
            if i >= len(catches):
                raise Mismatch("the annotation refers to handler %d of %d" % (i, len(catches)))
            if not same_catch(m, catches[i], catches[x]):
                a, b = catches[i], catches[x]
                eq = False
                if a[:3] == b[:3] and a[3] and b[3]:
                    x1, x2 = mk("sym", a[3], cty(L)), mk("sym", b[3], cty(L))
                    forms = [m.ip.mk_eq(m.f, p, q) for p, q in ((x1, x2), (x2, x1))]
                    eq = 1 in [m.f.value(t) for t in forms]
                    has = lambda t, x: contains(t, lambda y: y is x)
                    if not eq and any(has(q[0], x1) and has(q[0], x2) and q[0] not in forms for q in m.f.order):
                        raise Unknown("how the types of the handlers are compared")
                if not eq:
                    raise Mismatch("the annotation of handler %d refers to handler %d, which is a different one" % (x, i))
        elif k == "LocalVariable":
            m.u2(I(1), "number of ranges")
            W.same_pos(m.raw(2), x[0], "start of the annotated variable")
            m.same(m.raw(2), sub(W.at[x[1]], W.at[x[0]]), "length of the annotated variable")
            m.same(m.raw(2), B.sym("slot", "u16"), "slot of the annotated variable")
        else:
            W.same_pos(m.raw(2), x, "place of the annotation")
        m.same(m.raw(1), ZERO, "length of the type path")
        m.raw(2)
        m.u2(ZERO, "number of element values")


def note_reader(R, L, B, name, body, catches, notes):
    """what is written is read back: the targets must be the handlers and places of the code that was read"""
    val = L.code([B.insn(d) for d in body], build_catches(L, B, catches), build_notes(L, B, catches, notes))
    what = "read %s" % name
    n = 0
    for o in L.write(val, B.start(body)):
        if o.k != "ret" or o.v.op != "adt" or o.v.a[1] != 0 or has_unk(mk("seq", *o.pieces)):
            continue
        L.ip.steps = 0
        for r in L.read(list(o.pieces), o.s.copy()):
            if tainted(r.s) or r.k == "ret" and r.v.op != "adt":
                R.undecided(what, "unmodelled values")
                continue
            if r.k != "ret":
                R.bad("read:%s:panic" % name, "%s may panic: %s" % (what, r.v))
                continue
            n += 1

            def fn(m, v):
                m.ip.store(m.s, m.loc, mk("src"))
                got = m.ip.deep(m.s, r.v)
                if has_unk(got):
                    raise Unknown(show(got)[:200])
                if r.v.a[1] == 1:
                    raise Mismatch("the body is refused: " + show(got)[:200])
                f = {n_: got.a[2].a[2 + i] for i, n_ in enumerate(L.names)}
                at, k = {}, 0
                lv = L.variant(L.ity, "Label")[0]
                for q in f["code"].a:
                    if q[0] != "e" or q[1].op != "adt":
                        raise Unknown("code " + show(f["code"])[:200])
                    if q[1].a[1] == lv:
                        at[q[1].a[2]] = k
                    else:
                        k += 1
                want, k = {}, 0
                for d in body:
                    if d[0] == "label":
                        want[d[1]] = k
                    else:
                        k += 1
                if len(f["attrs"].a) != 1 or any(q[0] != "e" for q in f["attrs"].a):
                    raise Mismatch("attributes of the code: " + show(f["attrs"])[:200])
                xs = f["attrs"].a[0][1].a[2]
                if xs.op != "seq" or len(xs.a) != len(notes):
                    raise Mismatch("type annotations: " + show(xs)[:200])
                place = lambda t, l, w: at.get(t) == want[l] or no("%s is a label %s" % (w, "that is not in the code" if t not in at else "at another place"))

                def no(x):
                    raise Mismatch(x)

                for (kind, x), q in zip(notes, xs.a):
                    t = fields_of(L, q[1])["target"]
                    if L.C.ty[t.a[0]]["v"][t.a[1]]["n"] != kind:
                        raise Mismatch("kind of the target: " + show(t)[:200])
                    if kind == "CatchParameter":
                        if t.a[2] is not f["catches"].a[x][1]:
                            c = [i for i, y in enumerate(f["catches"].a) if y[1] is t.a[2]]
                            if not c or catches[c[0]][:3] != catches[x][:3] or not (catches[c[0]][3] and catches[x][3]):
                                raise Mismatch("the annotation of handler %d is read as that of another: %s" % (x, show(t)[:200]))
                    elif kind == "LocalVariable":
                        g = fields_of(L, t.a[2].a[0][1])
                        place(g["start"], x[0], "start of the annotated variable")
                        place(g["end"], x[1], "end of the annotated variable")
                    else:
                        place(t.a[2], x, "place of the annotation")

            ok, mism, unk_ = match_path(L.C, r.s, [], mk("sym", "c", L.ti), L.ti, fn, taint=[r.v])
            if ok and not mism and not unk_:
                R.good(what, ok)
            for e in mism:
                R.bad("read:%s:%s" % (name, e.split(":")[0][:60]), "%s: %s\n  read %s" % (what, e, show(m_deep(L, r))[:1200]))
            for e in unk_:
                R.undecided(what, e)
    if not n:
        R.undecided(what, "no path")


def cty(L):
    o = dict(L.C.ty[catch_ty(L)]["v"][0]["f"])["catch"]
    return L.C.ty[o]["v"][1]["f"][0][1]


def noted():
    E = "IntegerEqualsZero"
    la = lambda k: ("label", k)
    body = [la(0), ("nop",), ("jump", E, 3), la(1), ("ts", "a", 0, 0), la(2), ("nop",), la(3), ("nop",)]
    cs = [(0, 1, 2, "h"), (0, 1, 2, "g"), (0, 1, 3, "g"), (0, 2, 2, "g"), (1, 2, 2, "g"), (0, 1, 2, None)]
    return {"annotated handlers": (body, cs, [("CatchParameter", i) for i in range(len(cs))]),
            "annotated places": (body, [], [("InstanceOf", 0), ("InstanceOf", 1), ("InstanceOf", 2), ("LocalVariable", (1, 3))])}


def attr_value(m, L):
    r = m.rest()
    if not r.a or r.a[0][0] != "nt":
        raise Mismatch("an attribute is expected: " + show(r)[:200])
    v = m.ip.deep(m.s, r.a[0][2])
    if v.op != "adt":
        raise Unknown("attribute " + show(v)[:100])
    m.ip.store(m.s, m.loc, mk("src", *r.a[1:]))
    vt = L.C.ty[v.a[0]]["v"][v.a[1]]
    xs = m.ip.deep(m.s, v.a[2]) if len(v.a) > 2 else EMPTY
    if xs.op != "seq" or any(p[0] != "e" for p in xs.a):
        raise Unknown("table " + show(xs)[:200])
    return vt["n"], [m.ip.deep(m.s, p[1]) for p in xs.a]


def fields_of(L, v):
    return {n: v.a[2 + i] for i, (n, _) in enumerate(L.C.ty[v.a[0]]["v"][0]["f"])}


def check_tail(m, L, W, catches, attrs, B, notes=()):
    m.u2(I(len(catches)), "exception table length")
    for i, (a, b, h, t) in enumerate(catches):
        W.same_pos(m.raw(2), a, "start of the handled range")
        W.same_pos(m.raw(2), b, "end of the handled range")
        W.same_pos(m.raw(2), h, "handler")
        if t is None:
            m.u2(I(0), "catch type")
        else:
            o = dict(L.C.ty[catch_ty(L)]["v"][0]["f"])["catch"]
            m.same(m.raw(2), m.cls(V(m, mk("sym", t, L.C.ty[o]["v"][1]["f"][0][1]), L.C.ty[o]["v"][1]["f"][0][1])), "catch type")
    want = {}
    if W.lines:
        want["LineNumberTable"] = W.lines
    d = [(i, x) for i, x in enumerate(attrs) if x[2]]
    g = [(i, x) for i, x in enumerate(attrs) if x[3]]
    if d:
        want["LocalVariableTable"] = d
    if g:
        want["LocalVariableTypeTable"] = g
    m.u2(I(len(want) + bool(notes)), "attributes count")
    if notes:
        check_notes(m, L, W, catches, notes, B)
    for _ in range(len(want)):
        n, xs = attr_value(m, L)
        if n not in want:
            raise Mismatch("unexpected or repeated attribute " + n)
        w = want.pop(n)
        if len(w) != len(xs):
            raise Mismatch("%s has %d entries, not %d" % (n, len(xs), len(w)))
        if n == "LineNumberTable":
            for (p, line), x in zip(w, xs):
                m.same(x.a[2], p, "start of the line")
                m.same(x.a[3], line, "line number")
            continue
        for (i, (a, b, _, _)), x in zip(w, xs):
            f = fields_of(L, x)
            W.same_pos(f["start"], a, "start of the variable")
            m.same(f["len"], sub(W.at[b], W.at[a]), "length of the variable")
            for k in f:
                if k not in ("start", "len"):
                    if not (f[k].op == "sym" and f[k].a[0] == "%s%d" % (k, i)):
                        raise Mismatch("%s of the variable is %s" % (k, show(f[k])[:100]))


def writer(R, L, B, name, body, catches, attrs, notes=()):
    s = B.start(body)
    val = L.code([B.insn(d) for d in body], build_catches(L, B, catches), build_vars(L, B, attrs) + build_notes(L, B, catches, notes))
    try:
        outs = L.write(val, s)
    except Budget as e:
        R.undecided("write " + name, str(e))
        return
    ok_paths = 0
    for o in outs:
        R.count("written paths")
        guards = "; ".join("%s:%s" % (show(a[0])[:80], a[1:]) for a in o.s.f.order)
        what = "write %s" % name
        if o.k != "ret" and tainted(o.s):
            R.undecided("panic %s" % (o.v,), "a panic guarded by unmodelled values")
            continue
        if o.k != "ret":
            R.bad("write:%s:panic" % name, "%s may panic: %s\n  when %s" % (what, o.v, guards[:600]))
            continue
        if o.v.op != "adt":
            R.undecided(what, show(o.v)[:200])
            continue
        if o.v.a[1] == 1:

            def fn(m, v):
                m.ip.store(m.s, m.loc, mk("src"))
                if not refusable(m, B, body, catches, attrs):
                    raise Mismatch("the body is refused: " + show(m.ip.deep(m.s, o.v.a[2]))[:200])
        else:
            ok_paths += 1

            def fn(m, v):
                m.u2(mk("sym", "max_stack", L.fl["max_stack"]), "max_stack")
                m.u2(mk("sym", "max_locals", L.fl["max_locals"]), "max_locals")
                n = m.raw(4)
                W = Walk(m, B)
                for d in body:
                    W.step(d)
                W.finish()
                m.same(n, W.pos, "code_length")
                if m.f.range(W.pos)[1] > 65535:
                    raise Mismatch("code of %s bytes is written" % show(W.pos))
                check_tail(m, L, W, catches, attrs, B, notes)

        ok, mism, unk_ = match_path(L.C, o.s, o.pieces if o.v.a[1] == 0 else [], val, L.ti, fn)
        if ok and not mism and not unk_:
            R.good(what + " " + guards[:300], ok)
        for e in mism:
            R.bad("write:%s:%s" % (name, e.split(":")[0][:60]), "%s: %s\n  when %s\n  emitted %s" % (
                what, e, guards[:800], ", ".join(show_piece(p)[:80] for p in o.pieces)[:800]))
        for e in unk_:
            R.undecided(what, e)
    if not ok_paths and any(tainted(o.s) for o in outs):
        R.undecided("write %s never" % name, "some paths have unmodelled guards")
    elif not ok_paths and "missing" not in name:
        R.bad("write:%s:never" % name, "no body of the family '%s' can be written" % name)


def run(R, mir):
    L = Lab(mir)
    B = Bodies(L)
    L.ip.unroll = 14
    for name, body in families(R.thorough).items():
        R.count("families")
        writer(R, L, B, name, body, [], [])
    for name, (body, cs, vs) in tables().items():
        R.count("families")
        writer(R, L, B, name, body, cs, vs)
    keep = L.C.inline
    L.C.inline = keep | {k[1] for k in L.C.index if k[1].endswith(("::CodeAttr", "::CodeTypeAnnotation", "::CodeTypeAnnotationTarget", "::LocalVarTarget", "::Catch", "::Type", "::Label"))}
    for name, (body, cs, ns) in noted().items():
        R.count("families")
        writer(R, L, B, name, body, cs, [], ns)
        body = [(d[:3] + ([0, 1],) if d[0] == "ts" else d) for d in body]
        try:
            note_reader(R, L, B, name, body, cs, ns)
        except Budget as e:
            R.undecided("read " + name, str(e))
    L.C.inline = keep
    for name, body in bodies().items():
        reader(R, L, B, name, body)
    for name, (body, kw) in read_tables().items():
        reader(R, L, B, name, body, **kw)
    R.floor("families", 40)
    R.floor("written paths", 150)
    R.floor("bodies read", 20)


# ---------------------------------------------------------------- reader
class Asm:
    """assembles a body: positions are concrete, keys, bounds, lines and names are not"""

    def __init__(self, L, B):
        self.L, self.B = L, B

    def size(self, d, p):
        k = d[0]
        if k == "op":
            return len(d[1])
        if k == "j":
            return 5 if d[1] in (GOTO_W, JSR_W) else 3
        pad = 3 - p % 4
        if k == "ts":
            return 1 + pad + 12 + 4 * len(d[3])
        if k == "ls":
            return 1 + pad + 8 + 8 * len(d[3])
        return 0

    def place(self, body):
        p, at, pos = 0, {}, []
        for d in body:
            pos.append(p)
            if d[0] == "label":
                at[d[1]] = p
            p += self.size(d, p)
        return p, at, pos

    def code(self, body):
        n, at, pos = self.place(body)
        B = self.B
        # labels given as numbers around 5000 are positions
        tgt = lambda l: l - 5000 if l >= 4000 else at[l]
        out = []
        for d, p in zip(body, pos):
            off = lambda l, w: ("k", (tgt(l) - p).to_bytes(w, "big", signed=True))
            if d[0] == "op":
                out.append(("k", d[1]))
            elif d[0] == "j":
                out += [("k", bytes([d[1]])), off(d[2], 4 if d[1] in (GOTO_W, JSR_W) else 2)]
            elif d[0] == "ts":
                low = B.sym("low" + d[1], "i32")
                out += [("k", bytes([jvms.TABLESWITCH]) + bytes(3 - p % 4)), off(d[2], 4), ("be", 4, low),
                        ("be", 4, add(low, I(len(d[3]) - 1)))] + [off(x, 4) for x in d[3]]
            elif d[0] == "ls":
                out += [("k", bytes([jvms.LOOKUPSWITCH]) + bytes(3 - p % 4)), off(d[2], 4), ("k", len(d[3]).to_bytes(4, "big"))]
                for i, x in enumerate(d[3]):
                    out += [("be", 4, B.sym("key%s%d" % (d[1], i), "i32")), off(x, 4)]
        return n, at, pos, out


def bodies():
    la = lambda k: ("label", k)
    nops = lambda k: [("op", b"\0")] * k
    F = {}
    F["backward"] = nops(1) + [la(0), ("op", b"\0"), ("j", GOTO, 0)]
    F["forward"] = [("j", 153, 0), ("op", b"\x10\x05"), la(0), ("op", b"\0")]
    F["to the end"] = [("j", 153, 0), ("op", b"\0"), la(0)]
    F["to itself"] = nops(2) + [la(0), ("j", GOTO_W, 0)]
    F["to the start"] = [la(0)] + nops(3) + [("j", JSR_W, 0)]
    F["shared target"] = [("j", 153, 0), ("j", 198, 1), ("j", 168, 0), la(0), ("op", b"\0"), la(1), ("j", GOTO, 0)]
    F["crossing"] = [la(0), ("j", 154, 2), la(1), ("op", b"\x11\0\1"), ("j", GOTO, 0), la(2), ("j", GOTO_W, 1)]
    for k in range(4):
        F["table %d" % k] = nops(k) + [la(0), ("ts", "a", 1, [0, 1, 2]), la(1), ("op", b"\0"), la(2)]
        F["lookup %d" % k] = nops(k) + [la(0), ("ls", "a", 1, [0, 2]), la(1), ("op", b"\0"), la(2)]
    F["wide instructions"] = [("j", 153, 0), ("op", b"\xc4\x15\x01\x00"), ("op", b"\xc4\x84\x01\x00\x01\x00"), la(0), ("op", b"\0")]
    F["refuse: beyond the code"] = [("j", 153, 5009), ("op", b"\0")]
    F["refuse: before the code"] = [("op", b"\0"), ("j", 153, 4999)]
    F["refuse: inside an instruction"] = [("j", 153, 5004), ("op", b"\x11\0\1")]
    F["refuse: inside a switch"] = [("j", 153, 5008), la(0), ("ts", "a", 0, [0])]
    return F


def reader(R, L, B, name, body, lines=(), catches=(), vars_=(), types=()):
    A = Asm(L, B)
    n, at, pos, code = A.code(body)
    refuse = name.startswith("refuse")
    what = "read %s" % name
    sm = lambda k, t: mk("sym", k, t)
    pieces = [("be", 2, sm("max_stack", L.u["u16"])), ("be", 2, sm("max_locals", L.u["u16"])), ("k", n.to_bytes(4, "big"))] + code
    pieces.append(("k", len(catches).to_bytes(2, "big")))
    s = B.start([d for d in body if d[0] in ("ls",)])
    for d in body:
        if d[0] == "ts":
            s.f.bound(add(B.sym("low" + d[1], "i32"), I(len(d[3]) - 1)), -(1 << 31), (1 << 31) - 1)
    names = {}
    for i, (a, b, h, t) in enumerate(catches):
        pieces.append(("k", b"".join(x.to_bytes(2, "big") for x in (a, b, h))))
        if t is None:
            pieces.append(("k", b"\0\0"))
        else:
            o = dict(L.C.ty[catch_ty(L)]["v"][0]["f"])["catch"]
            x = sm(t, L.C.ty[o]["v"][1]["f"][0][1])
            m = Matcher(L.C, s, [], [])
            pieces.append(("be", 2, m.cls(V(m, x, L.C.ty[o]["v"][1]["f"][0][1]))))
    nattr = bool(lines) + bool(vars_) + bool(types)
    pieces.append(("k", nattr.to_bytes(2, "big")))
    for n_, xs in (("LineNumberTable", lines), ("LocalVariableTable", vars_), ("LocalVariableTypeTable", types)):
        if xs:
            pieces.append(attr_piece(L, n_, xs))
    try:
        outs = L.read(pieces, s)
    except Budget as e:
        R.undecided(what, str(e))
        return
    R.count("bodies read")
    for r in outs:
        if r.k != "ret" and tainted(r.s):
            R.undecided("panic %s" % (r.v,), "a panic guarded by unmodelled values")
            continue
        if r.k != "ret":
            R.bad("read:%s:panic" % name, "%s may panic: %s" % (what, r.v))
            continue
        if r.v.op != "adt":
            R.undecided(what, show(r.v)[:200])
            continue

        def fn(m, v):
            m.ip.store(m.s, m.loc, mk("src"))
            if r.v.a[1] == 1:
                if not refuse:
                    raise Mismatch("the body is refused: " + show(m.ip.deep(m.s, r.v))[:200])
                return
            if refuse:
                raise Mismatch("a body with a reference to no instruction is accepted")
            compare(m, L, B, m.ip.deep(m.s, r.v.a[2]), body, at, pos, lines, catches, vars_, types)

        ok, mism, unk_ = match_path(L.C, r.s, [], mk("sym", "c", L.ti), L.ti, fn, taint=[r.v])
        if ok and not mism and not unk_:
            R.good(what, ok)
        for e in mism:
            R.bad("read:%s:%s" % (name, e.split(":")[0][:60]), "%s: %s\n  read %s" % (what, e, show(m_deep(L, r))[:1200]))
        for e in unk_:
            R.undecided(what, e)
    if not outs:
        R.undecided(what, "no path")


def m_deep(L, r):
    return L.ip.deep(r.s, r.v)


def attr_ty(L):
    for k, d in L.C.index.items():
        if k[1].endswith("::CodeAttr"):
            ri = d["write_to"][0]
            return k, L.mir["insts"][ri]["self"]
    raise Unknown("no attribute codec")


def attr_piece(L, name, xs):
    key, ti = attr_ty(L)
    vi, fs = L.variant(ti, name)
    eti = L.C.ty.elem(fs[0][1])
    fl = L.C.ty[eti]["v"][0]["f"]
    out = []
    for i, x in enumerate(xs):
        vals = []
        for j, (n, t) in enumerate(fl):
            if name == "LineNumberTable":
                vals.append(I(x[0]) if j == 0 else mk("sym", x[1], t))
            elif n == "start":
                vals.append(I(x[0]))
            elif n == "len":
                vals.append(I(x[1] - x[0]))
            else:
                k = "name" if n == "name" else n
                vals.append(mk("sym", "%s_%s" % (k, x[2]), t))
        out.append(L.ip.adt(eti, 0, *vals))
    return ("nt", key, L.ip.adt(ti, vi, seq([("e", x) for x in out])))


def compare(m, L, B, got, body, at, pos, lines, catches, vars_, types):
    f = {n: got.a[2 + i] for i, n in enumerate(L.names)}
    xs = f["code"]
    if xs.op != "seq" or any(p[0] != "e" for p in xs.a):
        raise Unknown("instructions " + show(xs)[:300])
    want = [(d, p) for d, p in zip(body, pos) if d[0] != "label"]
    end = Asm(L, B).place(body)[0]
    labels, gl, refs = {}, [], []
    i = 0
    for p in xs.a:
        v = V(m, p[1], L.ity)
        k = v.variant()
        here = want[i][1] if i < len(want) else end
        if k == "Label":
            l = v.field(0, k).t
            if l in labels:
                raise Mismatch("label twice: " + show(l))
            labels[l] = here
            continue
        if k == "LineNumber":
            gl.append((here, v.field(0, k).t))
            continue
        if i >= len(want):
            raise Mismatch("an instruction too many")
        d = want[i][0]
        i += 1
        if d[0] == "op":
            if k in ("Jump", "Jsr", "TableSwitch", "LookupSwitch"):
                raise Mismatch("a jump appears")
            continue
        if d[0] == "j":
            op = d[1]
            if op in (JSR, JSR_W):
                if k != "Jsr":
                    raise Mismatch("jsr is read as " + k)
                refs.append((v.field(0, k).t, d[2]))
            else:
                if k != "Jump":
                    raise Mismatch("a jump is read as " + k)
                c = v.field(0, k).variant()
                if c != ("Always" if op in (GOTO, GOTO_W) else COND[op]):
                    raise Mismatch("opcode %d is read as a jump on %s" % (op, c))
                refs.append((v.field(1, k).t, d[2]))
        elif d[0] == "ts":
            if k != "TableSwitch":
                raise Mismatch("tableswitch is read as " + k)
            refs.append((v.field("default", k).t, d[2]))
            m.same(v.field("low", k).t, B.sym("low" + d[1], "i32"), "low")
            os_ = v.field("offsets", k).t
            if os_.op != "seq" or any(q[0] != "e" for q in os_.a):
                raise Unknown("offsets " + show(os_)[:200])
            if len(os_.a) != len(d[3]):
                raise Mismatch("%d entries are read of a tableswitch with %d" % (len(os_.a), len(d[3])))
            refs += [(q[1], x) for q, x in zip(os_.a, d[3])]
        elif d[0] == "ls":
            if k != "LookupSwitch":
                raise Mismatch("lookupswitch is read as " + k)
            refs.append((v.field("default", k).t, d[2]))
            t = v.field("table", k).t
            es = m.M.entries_of(t)
            if es is None:
                raise Unknown("table " + show(t)[:200])
            if len(es) != len(d[3]):
                raise Mismatch("%d pairs are read of a lookupswitch with %d" % (len(es), len(d[3])))
            for j, x in enumerate(d[3]):
                key = B.sym("key%s%d" % (d[1], j), "i32")
                hit = [e for e in es if e.a[0] is key]
                if len(hit) != 1:
                    raise Mismatch("the key of a lookupswitch is lost: " + show(t)[:200])
                refs.append((hit[0].a[1], x))
    if i != len(want):
        raise Mismatch("instructions are missing")

    def position(l, p, what):
        if l not in labels:
            raise Mismatch("%s refers to a label that is not in the code" % what)
        if labels[l] != p:
            raise Mismatch("%s refers to position %d, not %d" % (what, labels[l], p))

    for l, x in refs:
        position(l, at[x], "a jump")
    lt = {(p, n) for p, n in lines}
    if sorted(gl, key=lambda g: (g[0], show(g[1]))) != sorted([(p, mk("sym", n, g)) for (p, n) in lines for g in [line_ty(L)]], key=lambda g: (g[0], show(g[1]))):
        raise Mismatch("line numbers: read %s, expected %s" % ([(p, show(l)) for p, l in gl], sorted(lt)))
    cs = f["catches"]
    if cs.op != "seq" or len(cs.a) != len(catches):
        raise Mismatch("exception handlers: " + show(cs)[:200])
    cti = catch_ty(L)
    for q, (a, b, h, t) in zip(cs.a, catches):
        c = V(m, q[1], cti)
        position(c.start.t, a, "start of the handled range")
        position(c.end.t, b, "end of the handled range")
        position(c.handler.t, h, "handler")
        x = c.catch.some()
        if (x is None) != (t is None) or (x is not None and not (x.t.op == "sym" and x.t.a[0] == t)):
            raise Mismatch("catch type: " + show(q[1])[:200])
    attrs = f["attrs"]
    keys = []
    for x in list(vars_) + list(types):
        if x not in keys:
            keys.append(x)
    if not keys:
        if attrs is not EMPTY:
            raise Mismatch("attributes appear: " + show(attrs)[:200])
        return
    if attrs.op != "seq" or len(attrs.a) != 1 or attrs.a[0][0] != "e":
        raise Mismatch("attributes: " + show(attrs)[:200])
    ati = L.C.ty.elem(L.fl["attrs"])
    v = V(m, attrs.a[0][1], ati)
    if v.variant() != "LocalVariables":
        raise Mismatch("local variables are read as " + v.variant())
    vs = v.field(0, "LocalVariables")
    es = m.ip.deep(m.s, vs.t)
    if es.op == "seq" and all(q[0] == "e" for q in es.a):
        es = [q[1] for q in es.a]
    else:
        raise Unknown("local variables " + show(es)[:200])
    if len(es) != len(keys):
        raise Mismatch("%d local variables are read, not %d" % (len(es), len(keys)))
    left = list(keys)
    for e in es:
        x = V(m, e, vs.elem_ty())
        nm = x.name.t
        hit = [k for k in left if nm.op == "sym" and nm.a[0] == "name_" + k[2]]
        if not hit:
            raise Mismatch("name of a variable: " + show(nm)[:100])
        near = [k for k in hit if labels.get(x.start.t) == k[0] and labels.get(x.end.t) == k[1]]
        k = (near or hit)[0]
        left.remove(k)
        position(x.start.t, k[0], "start of the variable")
        position(x.end.t, k[1], "end of the variable")
        for fn_, tab in (("descriptor", vars_), ("signature", types)):
            g = x.field(fn_).some()
            if (g is None) == (k in tab):
                raise Mismatch("%s of the variable is %s" % (fn_, "lost" if g is None else "invented"))
            if g is not None and not (g.t.op == "sym" and g.t.a[0] == "%s_%s" % (fn_, k[2])):
                raise Mismatch("%s of the variable is %s" % (fn_, show(g.t)[:100]))
        if not (x.index.t.op == "sym" and x.index.t.a[0] == "index_" + k[2]):
            raise Mismatch("index of the variable is " + show(x.index.t)[:100])


def line_ty(L):
    key, ti = attr_ty(L)
    vi, fs = L.variant(ti, "LineNumberTable")
    return L.C.ty[L.C.ty.elem(fs[0][1])]["v"][0]["f"][1][1]


def read_tables():
    base = [("op", b"\0"), ("op", b"\x10\x05"), ("j", 153, 0), ("op", b"\x57"), ("label", 0), ("op", b"\0")]
    # positions: 0 nop, 1 bipush, 3 ifeq, 6 pop, 7 nop, 8 end
    F = {}
    F["line numbers"] = (base, dict(lines=[(0, "a"), (3, "b"), (7, "c")]))
    F["line numbers out of order"] = (base, dict(lines=[(6, "a"), (0, "b"), (7, "c"), (1, "d")]))
    F["handlers"] = (base, dict(catches=[(0, 7, 7, "e"), (1, 8, 0, None)]))
    F["variables"] = (base, dict(vars_=[(0, 8, "x"), (3, 7, "y")]))
    F["variable types"] = (base, dict(types=[(0, 8, "x"), (3, 7, "y")]))
    F["variables and types"] = (base, dict(vars_=[(0, 8, "x"), (3, 7, "y")], types=[(3, 7, "y")]))
    F["everything"] = (base, dict(lines=[(7, "a"), (0, "b")], catches=[(0, 6, 7, None)], vars_=[(6, 8, "x")], types=[(6, 8, "x")]))
    F["refuse: line number inside an instruction"] = (base, dict(lines=[(2, "a")]))
    F["refuse: line number beyond the code"] = (base, dict(lines=[(9, "a")]))
    F["refuse: handler inside an instruction"] = (base, dict(catches=[(0, 7, 4, None)]))
    F["refuse: range beyond the code"] = (base, dict(catches=[(0, 9, 7, None)]))
    F["refuse: variable inside an instruction"] = (base, dict(vars_=[(2, 8, "x")]))
    F["refuse: variable beyond the code"] = (base, dict(vars_=[(3, 9, "x")]))
    F["refuse: variable type beyond the code"] = (base, dict(types=[(3, 9, "x")]))
    # ends that are positions of instructions modulo 2^16
    F["refuse: variable far beyond the code"] = (base, dict(vars_=[(7, 65537, "x")]))
    F["refuse: variable type far beyond the code"] = (base, dict(types=[(7, 65537, "x")]))
    F["one variable in two ranges"] = (base, dict(vars_=[(0, 3, "x"), (3, 8, "x")], types=[(3, 8, "x")]))
    F["variables from one place"] = (base, dict(vars_=[(1, 7, "x"), (1, 8, "x")], types=[(1, 8, "x"), (1, 7, "x")]))
    return F
