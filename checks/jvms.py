"""The instruction set of the JVM specification (chapter 6): for each opcode, its operands and the instruction it denotes.

A pattern is (variant, field...); a field is a pattern, "$name" (an operand), an int, or ("flt", bits).
Operands: kind -> u1 s1 u2 s2 (numbers), c1 c2 (constant pool index), z (zero byte), b4 / b2 (branch offset)."""


def S(*c):
    return ("Push", ("Static", c))


def table():
    T = {}

    def row(op, pat, *operands):
        assert op not in T
        T[op] = (pat, operands)

    row(0x00, ("NoOp",))
    row(0x01, ("PushNull",))
    for i in range(-1, 6):
        row(0x03 + i, S("I32", i))
    row(0x09, S("I64", 0))
    row(0x0A, S("I64", 1))
    row(0x0B, S("F32", ("TotalF32", ("flt", 0))))
    row(0x0C, S("F32", ("TotalF32", ("flt", 0x3F800000))))
    row(0x0D, S("F32", ("TotalF32", ("flt", 0x40000000))))
    row(0x0E, S("F64", ("TotalF64", ("flt", 0))))
    row(0x0F, S("F64", ("TotalF64", ("flt", 0x3FF0000000000000))))
    row(0x10, S("I32", "$x"), ("s1", "$x"))
    row(0x11, S("I32", "$x"), ("s2", "$x"))
    row(0x12, ("Push", "$c"), ("c1", "$c", "const1"))
    row(0x13, ("Push", "$c"), ("c2", "$c", "const1"))
    row(0x14, ("Push", "$c"), ("c2", "$c", "const2"))
    LT = ["Int", "Long", "Float", "Double", "Reference"]
    for j, (ls, base, short) in enumerate([("Load", 0x15, 0x1A), ("Store", 0x36, 0x3B)]):
        for i, t in enumerate(LT):
            row(base + i, ("LocalVariable", (ls,), (t,), "$i"), ("u1", "$i"))
            for k in range(4):
                row(short + 4 * i + k, ("LocalVariable", (ls,), (t,), k))
    AT = ["Int", "Long", "Float", "Double", "Reference", "ByteOrBool", "Char", "Short"]
    for ls, base in (("Load", 0x2E), ("Store", 0x4F)):
        for i, t in enumerate(AT):
            row(base + i, ("Array", (ls,), (t,)))
    for i, n in enumerate(["Pop1", "Pop2", "Dup", "DupX1", "DupX2", "Dup2", "Dup2X1", "Dup2X2", "Swap"]):
        row(0x57 + i, (n,))
    for i, n in enumerate(["Add", "Subtract", "Multiply", "Divide", "Remainder", "Negate"]):
        row(0x60 + 4 * i, ("IntOperation", ("Int",), (n,)))
        row(0x61 + 4 * i, ("IntOperation", ("Long",), (n,)))
        row(0x62 + 4 * i, ("FloatOperation", ("Float",), (n,)))
        row(0x63 + 4 * i, ("FloatOperation", ("Double",), (n,)))
    for i, n in enumerate(["ShiftLeft", "ShiftRight", "UnsignedShiftRight", "And", "Or", "ExclusiveOr"]):
        row(0x78 + 2 * i, ("IntOperation", ("Int",), (n,)))
        row(0x79 + 2 * i, ("IntOperation", ("Long",), (n,)))
    row(0x84, ("IntIncrement", "$i", "$v"), ("u1", "$i"), ("s1", "$v"))
    for i, t in enumerate(["Long", "Float", "Double"]):
        row(0x85 + i, [("ConvertInt", (t,)), ("Conversion", ("Int",), (t,))])
    for op, a, b in [(0x88, "Long", "Int"), (0x89, "Long", "Float"), (0x8A, "Long", "Double"), (0x8B, "Float", "Int"),
                     (0x8C, "Float", "Long"), (0x8D, "Float", "Double"), (0x8E, "Double", "Int"),
                     (0x8F, "Double", "Long"), (0x90, "Double", "Float")]:
        row(op, ("Conversion", (a,), (b,)))
    for i, t in enumerate(["Byte", "Char", "Short"]):
        row(0x91 + i, ("ConvertInt", (t,)))
    row(0x94, ("CompareLongs",))
    row(0x95, ("CompareFloats", ("Float",), ("ReturnsNegativeOne",)))
    row(0x96, ("CompareFloats", ("Float",), ("ReturnsOne",)))
    row(0x97, ("CompareFloats", ("Double",), ("ReturnsNegativeOne",)))
    row(0x98, ("CompareFloats", ("Double",), ("ReturnsOne",)))
    for i, n in enumerate(["IntegerEqualsZero", "IntegerNotEqualsZero", "IntegerLessThanZero",
                           "IntegerGreaterThanOrEqualsZero", "IntegerGreaterThanZero", "IntegerLessThanOrEqualsZero",
                           "IntegerEquals", "IntegerNotEquals", "IntegerLessThan", "IntegerGreaterThanOrEquals",
                           "IntegerGreaterThan", "IntegerLessThanOrEquals", "ReferenceEquals", "ReferenceNotEquals",
                           "Always"]):
        row(0x99 + i, ("Jump", (n,), "$l"), ("b2", "$l"))
    row(0xA8, ("Jsr", "$l"), ("b2", "$l"))
    row(0xA9, ("Ret", "$i"), ("u1", "$i"))
    for i, t in enumerate(LT):
        row(0xAC + i, ("Return", ("Some", (t,))))
    row(0xB1, ("Return", ("None",)))
    row(0xB2, ("Field", ("Get",), ("Static",), "$m"), ("c2", "$m", "field"))
    row(0xB3, ("Field", ("Put",), ("Static",), "$m"), ("c2", "$m", "field"))
    row(0xB4, ("Field", ("Get",), ("Virtual",), "$m"), ("c2", "$m", "field"))
    row(0xB5, ("Field", ("Put",), ("Virtual",), "$m"), ("c2", "$m", "field"))
    row(0xB6, ("InvokeExact", ("Virtual",), "$m"), ("c2", "$m", "method"))
    row(0xB7, ("InvokeSpecial", "$m"), ("c2", "$m", "method"))
    row(0xB8, ("InvokeExact", ("Static",), "$m"), ("c2", "$m", "method"))
    row(0xB9, ("InvokeInterface", "$m", "$n"), ("c2", "$m", "method"), ("u1", "$n"), ("z",))
    row(0xBA, ("InvokeDynamic", "$d"), ("c2", "$d", "indy"), ("z",), ("z",))
    row(0xBB, ("New", "$c"), ("c2", "$c", "class"))
    ATYPE = {4: "Boolean", 5: "Char", 6: "Float", 7: "Double", 8: "Byte", 9: "Short", 10: "Int", 11: "Long"}
    row(0xBC, {a: ("NewArray", ("Static", (t,)), 1) for a, t in ATYPE.items()}, ("a1", None))
    row(0xBD, ("NewArray", "$t", 1), ("c2", "$t", "component"))
    row(0xBE, ("ArrayLength",))
    row(0xBF, ("Throw",))
    row(0xC0, ("CheckCast", "$t"), ("c2", "$t", "classtype"))
    row(0xC1, ("InstanceOf", "$t"), ("c2", "$t", "classtype"))
    row(0xC2, ("Monitor", ("Enter",)))
    row(0xC3, ("Monitor", ("Exit",)))
    row(0xC5, ("NewArray", "$t", "$n"), ("c2", "$t", "arraytype"), ("u1", "$n"))
    row(0xC6, ("Jump", ("IsNull",), "$l"), ("b2", "$l"))
    row(0xC7, ("Jump", ("IsNonNull",), "$l"), ("b2", "$l"))
    row(0xC8, ("Jump", ("Always",), "$l"), ("b4", "$l"))
    row(0xC9, ("Jsr", "$l"), ("b4", "$l"))
    W = {}
    for op, (pat, ops) in T.items():
        if op in (0x84, 0xA9) or 0x15 <= op <= 0x19 or 0x36 <= op <= 0x3A:
            W[op] = (pat, [({"u1": "u2", "s1": "s2"}[o[0]],) + o[1:] for o in ops])
    return T, W


OPS, WIDE_OPS = table()
TABLESWITCH, LOOKUPSWITCH, WIDE = 0xAA, 0xAB, 0xC4
assert len(OPS) + 3 == 202, len(OPS)
# written as nothing: pseudo instructions and conversions of a type to itself
NO_CODE = [("Label",), ("LineNumber",), ("ConvertInt", ("Int",))] + [
    ("Conversion", (t,), (t,)) for t in ("Int", "Long", "Float", "Double")
]
