"""C01: reading back what was written gives the same value, structure by structure."""
from codec import Codecs, RoundTrip
from interp import Budget

RULE = (
    "For every type with both a reader and a writer, the writer's MIR is abstractly interpreted on an arbitrary value "
    "(every path; loops by widening to a per-element grammar), giving the emitted byte grammar; the reader's MIR is then "
    "interpreted on that grammar and the value it returns is compared with the original by value numbering. "
    "An obligation is one (writer path, reader path) pair. Violations name the type, the guards and the layout."
)
ASSUMPTIONS = [
    "the pool, the class file frame, instructions, method bodies, strings, descriptors and signatures are decided by the rules of C03 to C07, C09 and C10, included as lemmas (within their bounds)",
    "in-range lengths (C12 decides that out-of-range lengths are not silently cut)",
    "flags values are subsets of their declared flags; dynamic constants have field descriptors; only method references carry the interface flag",
    "foreign library calls behave as documented (std collections, io, once_cell models)",
]
SKIP = ("::Class", "::Code", "::ClassWrapper", "::MapCp", "::VecCp", "::insn::Instruction", "::insn::Wide",
        "::insn::TableSwitch", "::insn::SwitchEntry")


def run(R, mir):
    C = Codecs(mir)
    ip = C.ip
    for k in sorted(C.index):
        name = "%s as %s" % (k[1], k[0])
        if k[1].endswith(SKIP):
            continue
        R.count("codecs")
        ip.unmodelled.clear()
        ip.steps = 0
        ip.max_steps = 3000000
        try:
            rt = RoundTrip(C, k).run()
        except (Budget, RecursionError, MemoryError, Exception) as e:
            ip.stack.clear()
            R.undecided(name, "%s %s" % (type(e).__name__, e))
            continue
        R.count("writer paths", rt.wpaths)
        if rt.ok:
            R.good(name, rt.ok)
        for v in rt.viol:
            R.bad("roundtrip:" + name + ":" + rt.vkey(v), "\n  ".join(v))
        for i, u in enumerate(rt.und):
            R.undecided("%s#%d" % (name, i), u)
    R.floor("codecs", 60)
    import c03, c04, c05, c06, c07, c09, c10

    R.lemma("class file", c05.core, mir)
    R.lemma("constant pool", c06, mir)
    R.lemma("instructions", c03, mir, lambda k: k.startswith(("write", "readback")))
    R.lemma("method bodies", c04, mir, lambda k: not k.endswith(":panic"))
    R.lemma("strings", c07, mir, lambda k: ":panic" not in k)
    texts = lambda k: k.startswith("print") or k.endswith((":value", ":rejects", ":length", ":dimensions")) or " reads " in k or k.startswith("parse ")
    R.lemma("descriptors", c09, mir, texts)
    R.lemma("signatures", c10, mir, texts)
