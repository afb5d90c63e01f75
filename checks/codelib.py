"""Shared by the checks on method bodies: running the writer and the reader of code on chosen instruction lists."""
from codec import Codecs, RoundTrip, has_unk, has_bad, tainted
from interp import Budget
from state import Infeasible
from terms import *
import jvms
from c02 import prepare
from wire import V, Matcher, Mismatch, Unknown, match_path, Done

CODE = "coffer::code::Code"


class Lab:
    def __init__(self, mir):
        self.mir = mir
        self.C = C = Codecs(mir)
        prepare(C)
        self.ip = ip = C.ip
        tr = "coffer::ConstantPoolReadWrite"
        self.w = self.inst("<%s as %s>::write_to" % (CODE, tr))
        self.r = self.inst("<%s as %s>::read_from" % (CODE, tr))
        self.ti = mir["insts"][self.w]["self"]
        self.fl = {n: t for n, t in C.ty[self.ti]["v"][0]["f"]}
        self.ity = C.ty.elem(self.fl["code"])
        self.names = [n for n, _ in C.ty[self.ti]["v"][0]["f"]]
        C.inline = {k[1] for k in C.index if "::insn::" in k[1]}
        self.u = {n: C.tyid(n) for n in ("u8", "i8", "u16", "i16", "u32", "i32")}
        C.real_labels = True
        ip.nofail = True
        ip.assume_lengths = True
        ip.unroll = 6

    def inst(self, path):
        l = [i for i, x in enumerate(self.mir["insts"]) if x["path"] == path]
        if not l:
            raise KeyError("no instance of " + path)
        return l[0]

    def code(self, insns, catches=None, attrs=None):
        vals = dict(
            max_stack=mk("sym", "max_stack", self.fl["max_stack"]),
            max_locals=mk("sym", "max_locals", self.fl["max_locals"]),
            code=seq(tuple(("e", i) for i in insns)),
            catches=seq(tuple(("e", i) for i in catches or ())),
            attrs=seq(tuple(("e", i) for i in attrs or ())),
        )
        return self.ip.adt(self.ti, 0, *[vals[n] for n in self.names])

    def fresh(self, steps=6000000):
        ip = self.ip
        ip.steps = 0
        ip.max_steps = steps
        ip.unmodelled.clear()
        ip.stack.clear()
        return ip.new_state()

    def write(self, val, s=None):
        return self.C.run_writer(s or self.fresh(), self.w, val)

    def read(self, pieces, s=None):
        return self.C.run_reader(s or self.fresh(), self.r, list(seq(tuple(pieces)).a))

    # instruction values
    def variant(self, ti, name):
        for i, v in enumerate(self.C.ty[ti]["v"]):
            if v["n"] == name:
                return i, v["f"]
        raise Unknown("no variant %s" % name)

    def build(self, ti, pat, caps):
        """a value of the type following a pattern"""
        if isinstance(pat, Term):
            return pat
        if isinstance(pat, str):
            return caps[pat]
        if isinstance(pat, int):
            return I(pat)
        if pat[0] == "flt":
            return mk("flt", str(pat[1]))
        i, fs = self.variant(ti, pat[0])
        args = list(pat[1:])
        t = self.C.ty[ti]
        if t["path"] == "std::option::Option":
            fs = t["v"][i]["f"]
        args += ["$" + n for n, _ in fs[len(args) :]]
        return self.ip.adt(ti, i, *[self.build(f[1], a, caps) for a, f in zip(args, fs)])


def match(m, v, pat, caps):
    if isinstance(pat, str):
        caps[pat] = v
    elif isinstance(pat, int):
        m.same(v.t, I(pat), "constant operand")
    elif pat[0] == "flt":
        m.same(v.t, mk("flt", str(pat[1])), "constant operand")
    else:
        n = v.variant()
        if n != pat[0]:
            raise Mismatch("the specification denotes %s, not %s" % (pat[0], n))
        ty = v.adt()
        if len(pat) > 1:
            vi = v.vi(n) if len(ty["v"]) > 1 else 0
            for p, (fn, _) in zip(pat[1:], ty["v"][vi]["f"]):
                match(m, v.field(fn, n), p, caps)


def match_any(m, v, pats, caps):
    if isinstance(pats, list):
        n = v.variant()
        for p in pats:
            if p[0] == n:
                return match(m, v, p, caps)
        raise Mismatch("the specification denotes %s, not %s" % (pats[0][0], n))
    match(m, v, pats, caps)


def fits(m, v, lo, hi, what):
    a, b = m.f.range(v.t)
    if a < lo or b > hi:
        raise Mismatch("%s is in %d..=%d, which does not fit the operand" % (what, a, b))


def reads_as(v):
    """what reading these constant pool entries must give: see entry_of"""
    return v


class Entries:
    """the constant pool entry an operand must refer to"""

    def __init__(self, m):
        self.m = m

    def dyn(self, v, invoke):
        m = self.m
        ism = v.descriptor.variant() == "Method"
        if ism != invoke:
            raise Infeasible  # assumption: call sites have method descriptors, constants have field descriptors
        b = m.ip.mk_app("cell_val", v.field("bsm").t, -1)
        return ("InvokeDynamic" if invoke else "Dynamic", v)

    def ordyn(self, v, fn):
        n = v.variant()
        if n == "Dynamic":
            return self.dyn(v.field(0, "Dynamic"), False)
        return fn(v.field(0, "Static"))

    def check(self, got, v, kind):
        m = self.m
        want = getattr(self, "k_" + kind)(v)
        if isinstance(want, tuple):
            # dynamically computed: bootstrap method index, name and type
            name, d = want
            if not (got.op == "app" and got.a[0] == "idx"):
                raise Mismatch("the operand is not a constant pool index: " + show(got)[:200])
            e = got.a[1]
            if not (e.op == "adt" and m.C.ty[e.a[0]]["v"][e.a[1]]["n"] == name):
                raise Mismatch("the operand must refer to a %s constant, not %s" % (name, show(e)[:200]))
            m.same(e.a[3], m.nat(d.name, d.descriptor), "name and type")
            b = e.a[2]
            if not (b.op == "app" and b.a[0] == "bsmidx"):
                raise Mismatch("bootstrap method index is " + show(b)[:200])
            w = b.a[1]
            if not (w.op == "app" and w.a[0] == "cell_val" and w.a[1] is d.field("bsm").t):
                raise Mismatch("the bootstrap method is %s" % show(w)[:200])
        else:
            m.same(got, want, "constant pool entry")

    def k_field(self, v):
        return self.ordyn(v, self.m.mref)

    k_method = k_field

    def k_indy(self, v):
        return self.dyn(v, True)

    def k_class(self, v):
        return self.ordyn(v, self.m.cls)

    def k_component(self, v):
        return self.ordyn(v, lambda t: self.m.cls(t.field(0)) if t.variant() == "Ref" else self.m.cls(self.m.text(t)))

    def k_arraytype(self, v):
        return self.ordyn(v, lambda t: self.m.cls(self.m.text(t)))

    def k_classtype(self, v):
        m = self.m

        def f(t):
            if t.variant() == "Object":
                return m.cls(t.field(0))
            tt = t.field(1)
            arr = [i for i, x in enumerate(m.C.ty[tt.ti]["v"]) if x["n"] == "ArrayRef"][0]
            return m.cls(m.text(m.ip.adt(tt.ti, arr, t.field(0).t, tt.t)))

        return self.ordyn(v, f)

    def const(self, v, wide):
        m = self.m

        def f(c):
            n = c.variant()
            if (n in ("I64", "F64")) != wide:
                raise Mismatch("%s loaded by %s" % (n, "ldc2_w" if wide else "ldc or ldc_w"))
            x = c.field(0)
            return {
                "I32": lambda: m.entry("Int", x),
                "F32": lambda: m.entry("Float", x),
                "I64": lambda: m.entry("Long", x),
                "F64": lambda: m.entry("Double", x),
                "String": lambda: m.string(x),
                "Class": lambda: m.cls(x),
                "Member": lambda: m.mref(x),
                "MethodType": lambda: m.entry("MethodType", m.desc(x)),
                "MethodHandle": lambda: m.handle(x),
            }[n]()

        if v.variant() == "Dynamic":
            d = v.field(0, "Dynamic")
            if (d.descriptor.variant() in ("Long", "Double")) != wide:
                raise Mismatch("a dynamically computed %s loaded by %s" % (d.descriptor.variant(), "ldc2_w" if wide else "ldc or ldc_w"))
        return self.ordyn(v, f)

    def k_const1(self, v):
        return self.const(v, False)

    def k_const2(self, v):
        return self.const(v, True)


def decode(m, v):
    """one instruction according to the specification; returns its size"""
    op = m.raw(1)
    k = m.f.value(op)
    if k is None:
        raise Mismatch("opcode is not determined: " + show(op)[:100])
    size = 1
    tab = jvms.OPS
    if k == jvms.WIDE:
        k = m.f.value(m.raw(1))
        size = 2
        tab = jvms.WIDE_OPS
    if k not in tab:
        raise Mismatch("%d is not an opcode%s" % (k, " that can be wide" if size == 2 else ""))
    pats, operands = tab[k]
    caps = {}
    if isinstance(pats, dict):
        a = m.f.value(m.raw(1))
        if a not in pats:
            raise Mismatch("array type %s" % a)
        match(m, v, pats[a], caps)
        return size + 1
    match_any(m, v, pats, caps)
    what = "opcode %d" % k
    for o in operands:
        if o[0] == "z":
            m.u1(I(0), "zero byte of " + what)
            size += 1
            continue
        w = int(o[0][1])
        size += w
        x = caps[o[1]]
        if o[0][0] == "u":
            fits(m, x, 0, (1 << 8 * w) - 1, "the operand of " + what)
            m.num(w, x, "operand of " + what)
        elif o[0][0] == "s":
            fits(m, x, -(1 << 8 * w - 1), (1 << 8 * w - 1) - 1, "the operand of " + what)
            m.num(w, x, "operand of " + what)
        elif o[0][0] == "c":
            got = m.raw(w)
            Entries(m).check(got, x, o[2])
        else:
            raise Unknown("branch")
    return size
