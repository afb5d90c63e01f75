"""C09: descriptors."""
import textspec
from codec import has_unk
from terms import *

RULE = (
    "The MIR of the descriptor parser is abstractly interpreted on a text of which a path knows only the characters it looked "
    "at (nested descriptors are nonterminals, verified on their own); every path is compared with a reference parser of JVMS "
    "4.3 on the same knowledge: well-formed texts must give the denoted type and be consumed entirely, malformed ones must be "
    "rejected or give a type that prints as the same text. The printers are interpreted on every kind of type (lists of any "
    "length) and the emitted text is compared with the grammar."
)
ASSUMPTIONS = [
    "texts of up to nine units (a nested descriptor counts as two), and arrays of 1, 2 and 254 to 257 dimensions",
    "strings iterate over their code points as decided by C08",
    "class names without a semicolon are well-formed; the array constructor may panic when the dimensions exceed 255",
]



def run(R, mir):
    S = textspec.parsers(R, mir, ("Type",), {"text::parse_desc": "Type"}, {None: 9})
    textspec.dims(R, S, "text::parse_desc", lambda n: ("Type", "ArrayRef", (n, ("Type", "Int", ()))))
    Pr = textspec.Printers(R, mir)
    Pr.check("text::write_desc", "Type", textspec.printed)
    Pr.check("text::show_desc", "Type", textspec.printed, lossy=True)
    R.floor("parsers", 1)
    R.floor("printers", 2)
    arrays(R, S, mir)


def arrays(R, S, mir):
    """the array constructor adds dimensions"""
    ip = S.ip
    for i, x in enumerate(mir["insts"]):
        if x["path"] != "text::array":
            continue
        ti = x["locals"][2]
        dt = x["locals"][1]
        dim = mk("sym", "dim", dt)
        for vi, var in enumerate(S.ty[ti]["v"]):
            s = ip.new_state()
            fs = [mk("sym", n, t) for n, t in var["f"]]
            v = ip.adt(ti, vi, *fs)
            what = "array of " + var["n"]
            try:
                outs = ip.run_fn(s, i, [dim, v])
            except Exception as e:
                ip.stack.clear()
                R.undecided(what, "%s %s" % (type(e).__name__, e))
                continue
            for o in outs:
                if o.k == "panic":
                    if var["n"] == "ArrayRef" and o.s.f.range(add(dim, fs[0]))[0] > 255:
                        R.good(what)
                    else:
                        R.bad("array:" + var["n"], "panics: %s" % o.v)
                    continue
                r = ip.deep(o.s, o.v)
                w = ip.deep(o.s, v)
                if r.op != "adt" or S.ty[ti]["v"][r.a[1]]["n"] != "ArrayRef":
                    R.undecided(what, show(r)[:200]) if r.op != "adt" else R.bad("array:" + var["n"], "gives " + show(r)[:200])
                    continue
                n, e = (add(dim, fs[0]), fs[1]) if var["n"] == "ArrayRef" else (dim, w)
                ok = (r.a[2] is n or o.s.f.decide(mk("eq0", sub(r.a[2], n))) == 1) and S.strip(r.a[3]) is e
                R.good(what) if ok else R.bad("array:" + var["n"], "gives " + show(r)[:200])
