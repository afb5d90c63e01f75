"""C02: what is written is the class file format of the JVM specification."""
import re
from terms import *
from codec import Codecs
from wire import *

RULE = (
    "The byte grammar every structure writer emits (abstract interpretation of its MIR on an arbitrary value, all paths) is "
    "matched against a reference decoder transcribed from JVMS chapter 4: field order and widths, tags, attribute names, "
    "constant-pool entry kinds, table counts and attribute lengths. An obligation is one (writer path, layout alternative)."
)
ASSUMPTIONS = [
    "text of descriptors and signatures is decided by C09/C10, modified UTF-8 by C07",
    "foreign library calls behave as documented",
]
CP = "coffer::"


# ---------------------------------------------------------------- primitives
def _int(n):
    def g(m, v):
        m.num(n, v, "integer")
    return g


for nm, n in (("u8", 1), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("i64", 8), ("u64", 8)):
    LAYOUT[("ReadWrite", nm)] = _int(n)


@layout("C i32")
def _(m, v): m.u2(m.entry("Int", v))


@layout("C i64")
def _(m, v): m.u2(m.entry("Long", v))


@layout("C coffer::total_floats::TotalF32")
def _(m, v): m.u2(m.entry("Float", v))


@layout("C coffer::total_floats::TotalF64")
def _(m, v): m.u2(m.entry("Double", v))


@layout("R coffer::total_floats::TotalF32")
def _(m, v): m.u4(m.ip.mk_app("fbits", v[0].t, m.C.tyid("u32")))


@layout("R coffer::total_floats::TotalF64")
def _(m, v): m.u8(m.ip.mk_app("fbits", v[0].t, m.C.tyid("u64")))


@layout("C std::borrow::Cow<wtf_8::Wtf8Str>")
def _(m, v): m.u2(m.utf8(v))


@layout("C std::option::Option<std::borrow::Cow<wtf_8::Wtf8Str>>")
def _(m, v): m.u2(m.opt(v, m.utf8))


@layout("C std::option::Option<(std::borrow::Cow<wtf_8::Wtf8Str>, coffer::loadable::Type)>")
def opt_nat(m, v):
    y = v.some()
    m.u2(0 if y is None else m.nat(y[0], y[1]))


def _str(m, v):
    b = m.ip.mk_app("mutf8", v.t, -1)
    m.u2(seq_len(b), "length of the encoded string")
    m.take(b, seq_len(b), "modified UTF-8 bytes")


LAYOUT[("ReadWrite", "wtf_8::alloc_impl::Wtf8String")] = _str
LAYOUT[("ReadWrite", "wtf_8::Wtf8String")] = _str
LAYOUT[("ReadWrite", "std::borrow::Cow<wtf_8::Wtf8Str>")] = _str


# ---------------------------------------------------------------- constants
ENTRY = dict(WTF8=1, Int=3, Float=4, Long=5, Double=6, Class=7, String=8, Field=9, Method=10, InterfaceMethod=11,
             NameAndType=12, MethodHandle=15, MethodType=16, Dynamic=17, InvokeDynamic=18, Module=19, Package=20)


@layout("R coffer::cp::RawConstantEntry")
def entry(m, v):
    n = v.variant()
    m.u1(ENTRY[n], "tag of " + n)
    if n == "WTF8":
        _str(m, v[0])
    elif n == "Int":
        m.u4(v[0])
    elif n == "Long":
        m.u8(v[0])
    elif n in ("Float", "Double"):
        m.nested(v[0], "ReadWrite")
    elif n == "MethodHandle":
        m.u1(v[0])
        m.u2(v[1])
    else:
        m.u2(v[0])
        if len(v.adt()["v"][v.vi(n)]["f"]) > 1:
            m.u2(v[1])


def const_idx(m, v):
    n = v.variant()
    x = v[0]
    return {
        "I32": lambda: m.entry("Int", x), "I64": lambda: m.entry("Long", x),
        "F32": lambda: m.entry("Float", x), "F64": lambda: m.entry("Double", x),
        "String": lambda: m.string(x), "Class": lambda: m.cls(x),
        "Member": lambda: m.mref(x), "MethodType": lambda: m.entry("MethodType", m.desc(x)),
        "MethodHandle": lambda: m.handle(x),
    }[n]()


@layout("C coffer::loadable::Constant")
def _(m, v): m.u2(const_idx(m, v))


@layout("C coffer::loadable::Type")
def _(m, v): m.u2(m.desc(v))


@layout("C coffer::prelude::ClassSignature", "C coffer::prelude::FieldSignature", "C coffer::prelude::MethodSignature")
def _(m, v): m.u2(m.desc(v))


@layout("C coffer::dynamic::BootstrapMethod")
def bsm(m, v):
    m.u2(m.handle(v.handle))
    m.table(2, v.arguments, bsm_arg)


def dyn_idx(m, d, kind):
    b = m.ip.mk_app("cell_val", d.bsm.t, m.C.bsm_ty)
    ix = m.ip.mk_app("bsmidx", b, m.C.tyid("u16"))
    return m.entry(kind, ix, m.nat(d.name, d.descriptor))


def bsm_arg(m, v):
    if v.variant() == "Static":
        m.u2(const_idx(m, v[0]))
    else:
        m.u2(dyn_idx(m, v[0], "Dynamic"))


# ---------------------------------------------------------------- flags and versions
def flags(m, v):
    m.u2(v[0] if v.adt()["v"][0]["f"][0][0] == "0" else v.field(v.adt()["v"][0]["f"][0][0]))


for nm in ("ClassFlags", "ExOpFlags", "FieldFlags", "InnerClassFlags", "MethodFlags", "MethodParameterFlags", "ModuleFlags",
           "RequireFlags"):
    LAYOUT[("ReadWrite", "coffer::flags::" + nm)] = flags

MAJOR = dict(J1=45, J1_2=46, J1_3=47, J1_4=48, J5=49, J6=50, J7=51, J8=52, J9=53, J10=54, J11=55, J12=56, J13=57, J14=58, J15=59,
             J16=60, J17=61)


@layout("R coffer::prelude::MajorVersion")
def major(m, v): m.u2(MAJOR[v.variant()], "major version of " + v.variant())


@layout("R coffer::prelude::JavaVersion")
def _(m, v):
    m.u2(v.minor, "minor version")
    m.nested(v.major)


# ---------------------------------------------------------------- annotations
def pair(m, kv):
    k, v = kv
    m.u2(m.utf8(k), "element name")
    m.nested(v, "ConstantPoolReadWrite")


@layout("C std::collections::HashMap<std::borrow::Cow<wtf_8::Wtf8Str>, coffer::annotation::AnnotationValue>")
def pairs(m, v): m.table(2, v, pair)


@layout("C coffer::annotation::Annotation")
def ann(m, v):
    m.u2(m.desc(v.annotation_type), "annotation type")
    pairs(m, v.element_values)


ELEM = dict(Byte="B", Char="C", Double="D", Float="F", Int="I", Long="J", Short="S", Boolean="Z", String="s", Enum="e", Class="c",
            Annotation="@", Array="[")


@layout("C coffer::annotation::AnnotationValue")
def annval(m, v):
    n = v.variant()
    m.u1(ord(ELEM[n]), "tag of " + n)
    if n in ("Byte", "Char", "Int", "Short", "Boolean"):
        m.u2(m.entry("Int", v[0]))
    elif n == "Double":
        m.u2(m.entry("Double", v[0]))
    elif n == "Float":
        m.u2(m.entry("Float", v[0]))
    elif n == "Long":
        m.u2(m.entry("Long", v[0]))
    elif n == "String":
        m.u2(m.utf8(v[0]))
    elif n == "Enum":
        m.u2(m.desc(v[0]))
        m.u2(m.utf8(v[1]))
    elif n == "Class":
        y = v[0].some()
        m.u2(m.utf8(m.const(b"V")) if y is None else m.desc(y))
    elif n == "Annotation":
        m.nested(v[0])
    elif n == "Array":
        m.table(2, v[0], lambda m, x: m.nested(x))


@layout("C coffer::annotation::ParameterAnnotations")
def _(m, v): m.table(2, v[0], lambda m, x: m.nested(x))


PATH = dict(Array=0, Nested=1, TypeBound=2, TypeArgument=3)


@layout("R coffer::annotation::TypePath")
def _(m, v):
    n = v.variant()
    m.u1(PATH[n], "type path kind " + n)
    m.u1(v[0])


def target(tags):
    def g(m, v):
        n = v.variant()
        tag, fs = tags[n]
        m.u1(tag, "target type " + n)
        for i, w in enumerate(fs):
            m.num(w, v[i], "target info of " + n)
    return g


LAYOUT[("ReadWrite", "coffer::annotation::ClassTypeAnnotationTarget")] = target(dict(
    GenericTypeParameter=(0, [1]), ExtendsImplementsClause=(0x10, [2]), GenericTypeParameterBound=(0x11, [1, 1])))
LAYOUT[("ReadWrite", "coffer::annotation::MethodTypeAnnotationTarget")] = target(dict(
    GenericTypeParameter=(1, [1]), GenericTypeParameterBound=(0x12, [1, 1]), Return=(0x14, []), Reciever=(0x15, []),
    FormalParameter=(0x16, [1]), Throws=(0x17, [2])))
LAYOUT[("ReadWrite", "coffer::annotation::FieldTarget")] = target(dict(Field=(0x13, [])))
CODE_TARGET = dict(LocalVariable=0x40, ResourceVariable=0x41, CatchParameter=0x42, InstanceOf=0x43, Constructor=0x44,
                   ConstructorRef=0x45, MethodRef=0x46, Cast=0x47, GenericConstructor=0x48, GenericMethod=0x49,
                   GenericConstructorRef=0x4A, GenericMethodRef=0x4B)


def off(m, l):
    return m.ip.mk_app("off", l.t, m.C.tyid("u16"))


@layout("C coffer::code::Label")
def _(m, v): m.u2(off(m, v), "code offset")


@layout("C coffer::code::Catch")
def _(m, v): m.u2(m.ip.mk_app("catchidx", v.t, m.C.tyid("u16")), "exception table index")


@layout("C coffer::annotation::LocalVarTarget")
def _(m, v):
    m.u2(off(m, v.start))
    m.u2(sub(off(m, v.end), off(m, v.start)), "length of the range")
    m.u2(v.idx)


@layout("C coffer::annotation::CodeTypeAnnotationTarget")
def _(m, v):
    n = v.variant()
    m.u1(CODE_TARGET[n], "target type " + n)
    if n in ("LocalVariable", "ResourceVariable"):
        m.table(2, v[0], lambda m, x: m.nested(x))
    else:
        m.nested(v[0])
        if CODE_TARGET[n] >= 0x47:
            m.u1(v[1])


def type_ann(fname):
    def g(m, v):
        m.nested(v.field(fname))
        m.table(1, v.type_path, lambda m, x: m.nested(x))
        raise_to_pairs(m, v)
    return g


def raise_to_pairs(m, v):
    m.u2(m.desc(v.annotation_type), "annotation type")
    pairs(m, v.element_values)


for nm, fl in (("Class", "target"), ("Code", "target"), ("Method", "target"), ("Field", "target_type")):
    LAYOUT[("ConstantPoolReadWrite", "coffer::annotation::%sTypeAnnotation" % nm)] = type_ann(fl)


# ---------------------------------------------------------------- attributes
def attribute(m, name, body):
    m.u2(m.utf8(m.const(name.encode())), "attribute name")
    got = m.raw(4)
    m.same(got, seq_len(m.rest()), "attribute length")
    body(m)


def raw_attr(m, v):
    # the raw bytes are written as they are, behind the name and their length
    fs = [n for n, _ in v.adt()["v"][0]["f"]]
    name, data = v.field(fs[0]), v.field(fs[1])
    m.u2(m.utf8(name), "attribute name")
    got = m.raw(4)
    m.same(got, seq_len(data.t), "attribute length")
    m.bytes(data, "attribute contents")


def nest(m, x): m.nested(x)


def u2cls(m, x): m.u2(m.cls(x))


ATTR = {
    "Signature": lambda m, v: m.u2(m.desc(v[0])),
    "Synthetic": lambda m, v: None,
    "Deprecated": lambda m, v: None,
    "SourceFile": lambda m, v: m.u2(m.utf8(v[0])),
    "InnerClasses": lambda m, v: m.table(2, v[0], nest),
    "EnclosingMethod": lambda m, v: (m.u2(m.cls(v[0])), opt_nat(m, v[1])),
    "SourceDebugExtension": lambda m, v: debug_ext(m, v[0]),
    "BootstrapMethods": lambda m, v: m.table(2, v[0], nest),
    "Module": lambda m, v: m.nested(v[0]),
    "ModulePackages": lambda m, v: m.table(2, v[0], lambda m, x: m.u2(m.package(x))),
    "ModuleMainClass": lambda m, v: m.u2(m.cls(v[0])),
    "NestHost": lambda m, v: m.u2(m.cls(v[0])),
    "NestMembers": lambda m, v: m.table(2, v[0], u2cls),
    "ConstantValue": lambda m, v: m.u2(const_idx(m, v[0])),
    "Exceptions": lambda m, v: m.table(2, v[0], u2cls),
    "AnnotationDefault": lambda m, v: m.nested(v[0]),
    "MethodParameters": lambda m, v: m.table(1, v[0], nest),
    "Code": lambda m, v: m.nested(v[0]),
    "LineNumberTable": lambda m, v: m.table(2, v[0], nest),
    "LocalVariableTable": lambda m, v: m.table(2, v[0], nest),
    "LocalVariableTypeTable": lambda m, v: m.table(2, v[0], nest),
    "StackMapTable": lambda m, v: m.table(2, v[0], nest),
}
for vis in ("Visible", "Invisible"):
    ATTR["Runtime%sAnnotations" % vis] = lambda m, v: m.table(2, v[0], nest)
    ATTR["Runtime%sTypeAnnotations" % vis] = lambda m, v: m.table(2, v[0], nest)
    ATTR["Runtime%sParameterAnnotations" % vis] = lambda m, v: m.table(1, v[0], nest)


def debug_ext(m, v):
    r = m.rest()
    if r.a and r.a[0][0] == "nt":
        m.nested(v)
    else:
        _dbg(m, v)


@layout("R coffer::attr::SourceDebugExtension")
def _dbg(m, v): m.bytes(m.ip.mk_app("mutf8", v[0].t, -1))


@layout("C coffer::attr::ClassAttribute", "C coffer::member::FieldAttribute", "C coffer::member::MethodAttribute",
        "C coffer::code::structure::CodeAttr")
def attr(m, v):
    n = v.variant()
    if n == "Raw":
        return raw_attr(m, v[0])
    if n not in ATTR:
        raise Unknown("attribute " + n)
    attribute(m, n, lambda m: ATTR[n](m, v))


@layout("C coffer::attr::InnerClass")
def _(m, v):
    m.u2(m.cls(v.inner_fqname), "inner class")
    m.u2(m.opt(v.outer_fqname, m.cls), "outer class")
    m.u2(m.opt(v.inner_name, m.utf8), "inner name")
    flags_nt(m, v.inner_access)


def flags_nt(m, v): m.nested(v, "ReadWrite")


@layout("C coffer::member::Field")
def _(m, v):
    flags_nt(m, v.access)
    m.u2(m.utf8(v.name))
    m.u2(m.desc(v.descriptor))
    m.table(2, v.attrs, nest)


@layout("C coffer::member::Method")
def _(m, v):
    flags_nt(m, v.access)
    m.u2(m.utf8(v.name))
    m.u2(m.desc(v.descriptor))
    m.table(2, v.attributes, nest)


@layout("C coffer::member::MethodParameter")
def _(m, v):
    m.u2(m.opt(v.name, m.utf8))
    flags_nt(m, v.access)


@layout("R coffer::code::LineNumber")
def _(m, v):
    m.u2(v[0])
    m.u2(v[1])


@layout("C coffer::code::structure::LocalVar")
def _(m, v):
    m.u2(v.start); m.u2(v.len)
    m.u2(m.utf8(v.name)); m.u2(m.desc(v.descriptor)); m.u2(v.index)


@layout("C coffer::code::LocalVarType")
def _(m, v):
    m.u2(v.start); m.u2(v.len)
    m.u2(m.utf8(v.name)); m.u2(m.desc(v.signature)); m.u2(v.index)


VTYPE = dict(Top=0, Int=1, Float=2, Double=3, Long=4, Null=5, UninitializedThis=6, Object=7, UninitializedVariable=8)


@layout("C coffer::code::VerificationType")
def _(m, v):
    n = v.variant()
    m.u1(VTYPE[n], "verification type tag of " + n)
    if n == "Object":
        m.u2(m.cls(v[0]))
    elif n == "UninitializedVariable":
        m.nested(v[0])


@layout("C coffer::code::RawFrame")
def frame(m, v):
    n = v.variant()
    tag = m.raw(1)
    f = m.f
    if n == "Same":
        if f.value(tag) == 251:
            m.u2(v[0])
        else:
            m.same(tag, v[0], "same_frame tag")
            rng(m, tag, 0, 63)
    elif n == "SameLocalsOneStack":
        if f.value(tag) == 247:
            m.u2(v[0])
        else:
            m.same(sub(tag, I(64)), v[0], "same_locals_1_stack_item_frame tag")
            rng(m, tag, 64, 127)
        m.nested(v[1])
    elif n == "Chop":
        m.same(sub(I(251), tag), v[1], "chop_frame tag")
        rng(m, tag, 248, 250)
        m.u2(v[0])
    elif n == "Append":
        m.same(sub(tag, I(251)), seq_len(v[1].t), "append_frame tag")
        rng(m, tag, 252, 254)
        m.u2(v[0])
        m.items(v[1], nest)
    elif n == "Full":
        m.same(tag, 255, "full_frame tag")
        m.u2(v[0])
        m.table(2, v[1], nest)
        m.table(2, v[2], nest)


def rng(m, t, lo, hi):
    a, b = m.f.range(t)
    if a < lo or b > hi:
        raise Mismatch("frame tag %s ranges over %d..%d, the format reserves %d..%d" % (show(t), a, b, lo, hi))


# ---------------------------------------------------------------- modules
@layout("C coffer::module::Require")
def _(m, v):
    m.u2(m.module(v.module)); flags_nt(m, v.flags); m.u2(m.opt(v.version, m.utf8))


@layout("C coffer::module::Export", "C coffer::module::Open")
def _(m, v):
    m.u2(m.package(v.package)); flags_nt(m, v.flags)
    m.table(2, v.to, lambda m, x: m.u2(m.module(x)))


@layout("C coffer::module::Provide")
def _(m, v):
    m.u2(m.cls(v.field("class")))
    m.table(2, v.field("with"), u2cls)


@layout("C coffer::module::Module")
def _(m, v):
    m.u2(m.module(v.name)); flags_nt(m, v.flags); m.u2(m.opt(v.version, m.utf8))
    m.table(2, v.requires, nest)
    m.table(2, v.exports, nest)
    m.table(2, v.opens, nest)
    m.table(2, v.uses, u2cls)
    m.table(2, v.provides, nest)


FLAGS = {
    "ClassFlags": dict(ACC_PUBLIC=1, ACC_FINAL=0x10, ACC_SUPER=0x20, ACC_INTERFACE=0x200, ACC_ABSTRACT=0x400, ACC_SYNTHETIC=0x1000,
                       ACC_ANNOTATION=0x2000, ACC_ENUM=0x4000, ACC_MODULE=0x8000),
    "FieldFlags": dict(ACC_PUBLIC=1, ACC_PRIVATE=2, ACC_PROTECTED=4, ACC_STATIC=8, ACC_FINAL=0x10, ACC_VOLATILE=0x40,
                       ACC_TRANSIENT=0x80, ACC_SYNTHETIC=0x1000, ACC_ENUM=0x4000),
    "MethodFlags": dict(ACC_PUBLIC=1, ACC_PRIVATE=2, ACC_PROTECTED=4, ACC_STATIC=8, ACC_FINAL=0x10, ACC_SYNCHRONIZED=0x20,
                        ACC_BRIDGE=0x40, ACC_VARARGS=0x80, ACC_NATIVE=0x100, ACC_ABSTRACT=0x400, ACC_STRICT=0x800,
                        ACC_SYNTHETIC=0x1000),
    "InnerClassFlags": dict(ACC_PUBLIC=1, ACC_PRIVATE=2, ACC_PROTECTED=4, ACC_STATIC=8, ACC_FINAL=0x10, ACC_INTERFACE=0x200,
                            ACC_ABSTRACT=0x400, ACC_SYNTHETIC=0x1000, ACC_ANNOTATION=0x2000, ACC_ENUM=0x4000),
    "MethodParameterFlags": dict(ACC_FINAL=0x10, ACC_SYNTHETIC=0x1000, ACC_MANDATED=0x8000),
    "ModuleFlags": dict(ACC_OPEN=0x20, ACC_SYNTHETIC=0x1000, ACC_MANDATED=0x8000),
    "RequireFlags": dict(ACC_TRANSITIVE=0x20, ACC_STATIC_PHASE=0x40, ACC_SYNTHETIC=0x1000, ACC_MANDATED=0x8000),
    "ExOpFlags": dict(ACC_SYNTHETIC=0x1000, ACC_MANDATED=0x8000),
}


def prepare(C):
    for i, t in enumerate(C.ty.t):
        if t["k"] == "adt" and t["path"] == "coffer::cp::RawConstantEntry":
            C.entry_ty = i
        if t["k"] == "adt" and t["path"] == "coffer::dynamic::BootstrapMethod":
            C.bsm_ty = i


def run(R, mir):
    C = Codecs(mir)
    ip = C.ip
    prepare(C)
    ip.nofail = True
    ip.assume_lengths = True
    skip = ("::Class", "::Code", "::ClassWrapper", "::MapCp", "::VecCp", "::insn::Instruction", "::insn::Wide",
            "::insn::TableSwitch", "::insn::SwitchEntry")
    for k in sorted(C.index):
        if k[1].endswith(skip) or "write_to" not in C.index[k]:
            continue
        name = "%s as %s" % (k[1], k[0])
        fn = LAYOUT.get(k)
        if fn is None:
            if k[1] in ("f32", "f64"):
                continue
            R.undecided(name, "no reference layout")
            continue
        R.count("layouts")
        ip.steps, ip.max_steps = 0, 3000000
        try:
            wi = C.index[k]["write_to"][0]
            ti = mir["insts"][wi]["self"]
            val = mk("sym", "self", ti)
            s = ip.new_state()
            for o in C.run_writer(s, wi, val):
                if o.k != "ret" or o.v.op != "adt" or o.v.a[1] != 0:
                    continue
                R.count("writer paths")
                ok, mism, unk_ = match_path(C, o.s, o.pieces, val, ti, fn)
                ty = C.ty[ti]
                var = "-"
                if ty["k"] == "adt" and len(ty["v"]) > 1:
                    d = o.s.f.value(mk("discr", val, len(ty["v"])))
                    var = ty["v"][d]["n"] if d is not None else "*"
                if ok:
                    R.good("%s %s" % (name, var), ok)
                for x in mism:
                    R.bad("layout:%s:%s:%s" % (name, var, x.split(":")[0]), "%s\n  layout emitted: %s" % (
                        x, ", ".join(show_piece(p) for p in o.pieces)[:1500]))
                for i, x in enumerate(unk_):
                    R.undecided("%s:%s#%d" % (name, var, i), x)
        except Exception as e:
            ip.stack.clear()
            R.undecided(name, "%s %s" % (type(e).__name__, e))
    # named flags
    for i, x in enumerate(mir["insts"]):
        p = x["path"].split("::")[-1]
        if x["crate"] == "coffer_probe" and p.startswith("flag___"):
            ty, cn = p[len("flag___"):].split("__")
            want = FLAGS[ty][cn]
            outs = [o.v for o in ip.run_fn(ip.new_state(), i, []) if o.k == "ret"]
            R.count("flag constants")
            v = outs[0].a[2] if len(outs) == 1 and outs[0].op == "adt" else None
            if v is None or v.op != "int":
                R.undecided("flag %s::%s" % (ty, cn), "value not determined")
            elif v.a[0] != want:
                R.bad("flag:%s::%s" % (ty, cn), "is 0x%04x, the specification says 0x%04x" % (v.a[0], want))
            else:
                R.good("flag %s::%s" % (ty, cn))
    for ty in FLAGS:
        for i, x in enumerate(mir["insts"]):
            if x["path"] == "coffer::flags::%s::all" % ty:
                m = C.flag_mask(mir["insts"][i]["locals"][0])
                want = 0
                for b in FLAGS[ty].values():
                    want |= b
                if m is not None and m.a[0] != want:
                    R.bad("flags:%s" % ty, "knows the bits 0x%04x, the specification defines 0x%04x" % (m.a[0], want))
    import c05, c06

    R.lemma("class file", c05.core, mir, lambda k: ":layout" in k or ":pool order" in k)
    R.lemma("constant pool", c06, mir, lambda k: k.startswith(("history", "writer")))
    R.floor("layouts", 55)
    R.floor("flag constants", 40)
