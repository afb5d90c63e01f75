"""C03: every instruction is written as, and read from, the opcode and operands the JVM specification defines for it."""
from codelib import *

RULE = (
    "The MIR of the code writer is abstractly interpreted on a body consisting of one arbitrary instruction; on every path the "
    "emitted bytes are decoded with the instruction table of the JVM specification and must denote exactly that instruction "
    "(operands within range, constant pool operands referring to the required kind of entry). The MIR of the code reader is "
    "interpreted on every opcode 0..=255 and every wide form with arbitrary operands and must return the instruction the table "
    "denotes, or reject undefined opcodes; finally reading each written path must give the instruction back."
)
ASSUMPTIONS = [
    "constant-pool insertion followed by lookup returns the inserted entry (C06); descriptors are parsed as displayed (C09)",
    "call sites have method descriptors and dynamically computed constants field descriptors; only method references carry the interface flag",
    "the invokeinterface count is the caller's; loading a member reference with ldc is the caller's error",
    "jump and switch offsets are decided by C04",
]


def run(R, mir):
    L = Lab(mir)
    writer(R, L)
    reader(R, L)
    R.floor("written forms", 100)
    R.floor("opcodes read", 250)


def may_reject(m, v):
    n = v.variant()
    if n in ("Jump", "Jsr", "TableSwitch", "LookupSwitch"):
        return True  # their labels are not in this code
    if n == "NewArray":
        t, d = v.field(0, n), v.field(1, n)
        if m.f.value(d.t) == 0:
            return True
        if t.variant() == "Static":
            k = t.field(0, "Static").variant()
            return k == "Method" or (k != "ArrayRef" and m.f.range(d.t)[0] >= 2)
    return False


def alternatives(L, s, pieces, v, fn, taint=()):
    return match_path(L.C, s, pieces, v, L.ity, fn, taint=taint)


def writer(R, L):
    insn = mk("sym", "insn", L.ity)
    val = L.code([insn])
    seen = set()
    taint = False
    for o in L.write(val):
        taint = taint or tainted(o.s)
        if o.k != "ret" and tainted(o.s):
            R.undecided("panic %s" % (o.v,), "a panic guarded by unmodelled values")
            continue
        if o.k != "ret":
            R.bad("write:panic", "writing one instruction may panic: %s" % (o.v,))
            continue
        dv = o.s.f.value(mk("discr", insn, len(L.C.ty[L.ity]["v"])))
        name = L.C.ty[L.ity]["v"][dv]["n"] if dv is not None else "?"
        label = "%s %s" % (name, "; ".join("%s:%s" % (show(a[0])[:60], a[1:]) for a in o.s.f.order)[:300])
        if o.v.op != "adt":
            R.undecided("write " + label, show(o.v)[:300])
            continue
        if o.v.a[1] == 1:
            def rej(m, v):
                if not may_reject(m, v):
                    raise Mismatch("the instruction is rejected: " + show(o.v.a[2])[:200])
                m.ip.store(m.s, m.loc, mk("src"))

            ok, mism, unk_ = alternatives(L, o.s, [], insn, rej)
        else:
            seen.add(name)

            def fn(m, v):
                m.u2(mk("sym", "max_stack", L.fl["max_stack"]), "max_stack")
                m.u2(mk("sym", "max_locals", L.fl["max_locals"]), "max_locals")
                n = m.raw(4)
                nothing = False
                for p in jvms.NO_CODE:
                    if v.variant() == p[0]:
                        try:
                            match(m, v, p, {})
                            nothing = True
                        except Mismatch:
                            pass
                size = 0 if nothing else decode(m, v)
                m.same(n, I(size), "code_length")
                m.u2(I(0), "exception table length")
                if v.variant() == "LineNumber":
                    m.u2(I(1), "attributes count")
                    line_table(m, L, v.field(0, "LineNumber"))
                else:
                    m.u2(I(0), "attributes count")

            ok, mism, unk_ = alternatives(L, o.s, o.pieces, insn, fn)
        R.count("written forms")
        if ok and not mism and not unk_:
            R.good("write " + label, ok)
        for e in mism:
            R.bad("write:%s:%s" % (name, e[:60]), "%s\n  when %s\n  emitted %s" % (e, label, ", ".join(show_piece(p)[:80] for p in o.pieces[2:])))
        for e in unk_:
            R.undecided("write " + label, e)
        if o.v.a[1] == 0:
            roundtrip(R, L, o, insn, name, label)
    for v in L.C.ty[L.ity]["v"]:
        if taint and v["n"] not in seen:
            R.undecided("write never " + v["n"], "some paths have unmodelled guards")
            continue
        if v["n"] not in seen and v["n"] not in ("Jump", "Jsr", "TableSwitch", "LookupSwitch"):
            R.bad("write:never:" + v["n"], "no %s instruction can be written" % v["n"])


def line_table(m, L, line):
    r = m.rest()
    if not r.a or r.a[0][0] != "nt":
        raise Mismatch("no line number table is written: " + show(r)[:200])
    v = r.a[0][2]
    ti = v.a[0]
    if v.op != "adt" or L.C.ty[ti]["v"][v.a[1]]["n"] != "LineNumberTable":
        raise Mismatch("a line number gives " + show(v)[:100])
    xs = v.a[2]
    if xs.op != "seq" or len(xs.a) != 1 or xs.a[0][0] != "e":
        raise Mismatch("the line number table is " + show(xs)[:200])
    e = xs.a[0][1]
    m.same(e.a[2], I(0), "start of the line")
    m.same(e.a[3], line, "line number")
    m.ip.store(m.s, m.loc, mk("src", *r.a[1:]))


def roundtrip(R, L, o, insn, name, label):
    """reading what was written gives the instruction back"""
    try:
        outs = L.read(o.pieces, o.s.copy())
    except Budget as e:
        R.undecided("read back " + label, str(e))
        return
    n = 0
    for r in outs:
        n += 1
        what = "read back " + label
        if names_contradicted(L, r.s):
            n -= 1
            continue
        if r.k != "ret" and tainted(r.s):
            R.undecided("panic %s" % (r.v,), "a panic guarded by unmodelled values")
            continue
        if r.k != "ret":
            R.bad("readback:%s:panic" % name, "reading it back may panic: %s\n  %s\n  when %s" % (r.v, label, "; ".join("%s:%s" % (show(a[0])[:160], a[1:]) for a in r.s.f.order[len(o.s.f.order):])))
            continue
        if r.v.op != "adt":
            R.undecided(what, show(r.v)[:200])
            continue

        def fn(m, v):
            m.ip.store(m.s, m.loc, mk("src"))
            same_insn(m, L, L.ip.deep(r.s, r.v), v)

        ok, mism, unk_ = alternatives(L, r.s, [], insn, fn, [r.v])
        if ok and not mism and not unk_:
            R.good(what, ok)
        for e in mism:
            R.bad("readback:%s:%s" % (name, e[:60]), "%s\n  when %s\n  emitted %s\n  read %s\n  when %s" % (
                e, label, ", ".join(show_piece(p)[:80] for p in o.pieces[2:]), show(r.v)[:300], "; ".join("%s:%s" % (show(a[0])[:160], a[1:]) for a in r.s.f.order[len(o.s.f.order):])))
        for e in unk_:
            R.undecided(what, e)
    if not n:
        R.undecided("read back " + label, "no path")


def names_contradicted(L, s):
    """the path is taken only if a class name is empty or starts with '[', the text of an array type does not start with '[',
    or a text is not well-formed (an overlong '[')"""
    for a in s.f.order:
        t = a[0]
        es = []
        contains(t, lambda q: es.append(q) if q.op == "elem" else False)
        if t.op == "len" and s.f.value(t) == 0:
            x, first = t.a[0], None
        elif es and all(e.a[0] is es[0].a[0] for e in es):
            x, first = es[0].a[0], t
        else:
            continue
        if first is not None and first.op == "elem" and first.a[1] is ZERO:
            lead, room = s.f.range(first)[0], s.f.range(seq_len(x))[1]
            if room < (4 if lead >= 0xF0 else 3 if lead >= 0xE0 else 2 if lead >= 0x80 else 1):
                return True  # ends inside a character
        if x.op == "app" and x.a[0] == "display":
            v = x.a[1]
            ti = v.a[0] if v.op == "adt" else v.a[-1]
            d = v.a[1] if v.op == "adt" else s.f.value(mk("discr", v, len(L.C.ty[ti]["v"])))
            if d is not None and L.C.ty[ti]["v"][d]["n"] == "ArrayRef":
                if first is None or s.f.excluded(first, 91) or (first.op == "elem" and s.f.range(first)[0] > 91):
                    return True
        elif x.op == "fld":
            if first is None or s.f.value(first) == 91:
                return True
    return False


def no_lab(m, v):
    """assumptions on values, shared with the entries"""
    n = v.variant()
    E = Entries(m)
    if n == "InvokeDynamic":
        E.dyn(v.field(0, n), True)
    for i, (fn, fti) in enumerate(v.adt()["v"][v.vi(n)]["f"]):
        t = m.C.ty[fti]
        if t.get("path", "").endswith("::OrDynamic"):
            x = v.field(fn, n)
            if x.variant() == "Dynamic":
                E.dyn(x.field(0, "Dynamic"), False)
            else:
                fix_members(m, x.field(0, "Static"), n)


def fix_members(m, v, n):
    t = v.adt()
    if t["k"] != "adt":
        return
    if t["path"].endswith("::MemberRef"):
        if v.descriptor.variant() != "Method":
            m.assume(v.itfs.t, 0)
    elif t["path"].endswith("::Constant"):
        k = v.variant()
        if k == "MethodHandle":
            fix_members(m, v.field(0, k).member, n)
        elif k == "Member":
            fix_members(m, v.field(0, k), n)
        elif k == "MethodType":
            if v.field(0, k).variant() != "Method":
                raise Infeasible
    elif t["path"].endswith("::ClassType"):
        if v.variant() == "Object":
            first_not_bracket(m, v.field(0, "Object"))
    elif t["path"].endswith("::Type"):
        if v.variant() == "Ref":
            first_not_bracket(m, v.field(0, "Ref"))


def first_not_bracket(m, v):
    """class names do not start with '['"""
    m.s.tags += ("class name",)


def same_insn(m, L, res, v):
    no_lab(m, v)
    n = v.variant()
    if res.a[1] == 1:
        raise Mismatch("reading back what was written fails: " + show(res.a[2])[:200])
    code = res.a[2].a[2 + L.names.index("code")]
    rest = [res.a[2].a[2 + L.names.index(x)] for x in ("catches", "attrs")]
    if any(x is not EMPTY for x in rest):
        raise Mismatch("exception handlers or attributes appear: " + show(mk("tup", *rest))[:200])
    for p in jvms.NO_CODE:
        if p[0] == n and n != "LineNumber":
            try:
                match(m, v, p, {})
                if code is not EMPTY:
                    raise Mismatch("read back as " + show(code)[:200])
                return
            except Mismatch as e:
                if str(e).startswith("read back as"):
                    raise
    if not (code.op == "seq" and len(code.a) == 1 and code.a[0][0] == "e"):
        raise Mismatch("read back as " + show(code)[:200])
    got = code.a[0][1]
    if n == "Conversion" and v.field(0, n).variant() == "Int":
        to = v.field(1, n).variant()
        w = L.build(L.ity, ("ConvertInt", (to,)), {})
        m.same(got, w, "conversion")
        return
    m.same(got, v, "instruction read back")


KIND = {"u1": "u8", "s1": "i8", "u2": "u16", "s2": "i16"}


def reader(R, L):
    jobs = [((op,), jvms.OPS.get(op)) for op in range(256) if op not in (jvms.WIDE, jvms.TABLESWITCH, jvms.LOOKUPSWITCH)]
    jobs += [((jvms.WIDE, op), jvms.WIDE_OPS.get(op)) for op in range(256)]
    for ops, row in jobs:
        what = "read opcode " + " ".join(str(o) for o in ops)
        pats, operands = row or (None, ())
        if isinstance(pats, dict):
            for a in range(256):
                one(R, L, what + " %d" % a, bytes(ops) + bytes([a]), pats.get(a), (), ops[-1])
            continue
        one(R, L, what, bytes(ops), pats, operands, ops[-1])


def one(R, L, what, head, pats, operands, op):
    pieces = [("k", head)]
    n = len(head)
    caps = {}
    for i, o in enumerate(operands):
        if o[0] == "z":
            pieces.append(("k", b"\0"))
            n += 1
            continue
        w = int(o[0][1])
        n += w
        if o[0][0] == "b":
            # to the end of the code
            pieces.append(("k", (len(head) + w).to_bytes(w, "big")))
            caps[o[1]] = "end"
        elif o[0][0] == "c":
            return  # by reading back what was written
        else:
            x = mk("sym", "operand%d" % i, L.u[KIND[o[0]]])
            caps[o[1]] = x
            pieces.append(("be", w, x))
    R.count("opcodes read")
    pieces = [("be", 2, mk("sym", "max_stack", L.u["u16"])), ("be", 2, mk("sym", "max_locals", L.u["u16"])),
              ("k", n.to_bytes(4, "big"))] + pieces + [("k", b"\0\0\0\0")]
    try:
        outs = L.read(pieces)
    except Budget as e:
        R.undecided(what, str(e))
        return
    for r in outs:
        if r.k != "ret" and tainted(r.s):
            R.undecided("panic %s" % (r.v,), "a panic guarded by unmodelled values")
            continue
        if r.k != "ret":
            R.bad("read:%d:panic" % op, "%s may panic: %s" % (what, r.v))
            continue
        if r.v.op != "adt":
            R.undecided(what, show(r.v)[:200])
            continue

        def fn(m, v):
            m.ip.store(m.s, m.loc, mk("src"))
            if r.v.a[1] == 1:
                if pats is not None:
                    raise Mismatch("a defined opcode is rejected")
                return
            if pats is None:
                raise Mismatch("an undefined opcode is read as " + show(r.v)[:200])
            m.same(r.v.a[2].a[2 + L.names.index("max_stack")], mk("sym", "max_stack", L.u["u16"]), "max_stack")
            m.same(r.v.a[2].a[2 + L.names.index("max_locals")], mk("sym", "max_locals", L.u["u16"]), "max_locals")
            code = r.v.a[2].a[2 + L.names.index("code")]
            if not (code.op == "seq" and code.a and all(p[0] == "e" for p in code.a)):
                raise Mismatch("read as " + show(code)[:200])
            got = V(m, code.a[0][1], L.ity)
            cs = {}
            match(m, got, pats[0] if isinstance(pats, list) else pats, cs)
            if "end" in caps.values():
                # a label at the end of the code, and nothing else
                if len(code.a) != 2:
                    raise Mismatch("read as " + show(code)[:200])
                e = V(m, code.a[1][1], L.ity)
                match(m, e, ("Label", "$l"), cs2 := {})
                m.same(cs["$l"].t, cs2["$l"], "target of the jump")
                return
            if len(code.a) != 1:
                raise Mismatch("read as " + show(code)[:200])
            for k, x in caps.items():
                m.same(cs[k].t, x, "operand")

        ok, mism, unk_ = alternatives(L, r.s, [], mk("sym", "insn", L.ity), fn, [r.v])
        if ok and not mism and not unk_:
            R.good(what, ok)
        for e in mism:
            R.bad("read:%s:%s" % (op, e[:60]), "%s: %s" % (what, e))
        for e in unk_:
            R.undecided(what, e)
