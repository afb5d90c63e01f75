"""C10: generic signatures."""
import textspec

RULE = (
    "The MIR of the signature parsers is abstractly interpreted on a text of which a path knows only the characters it looked "
    "at (nested signatures are nonterminals; a nested function counts as one if it is verified to be a parser of exactly that "
    "construct, otherwise it is analysed as part of its callers); every path is compared with a reference parser of JVMS 4.7.9.1 "
    "on the same knowledge: well-formed texts must give the denoted value and be consumed exactly, malformed ones must be "
    "rejected or give a value that prints as the same text. The printers are interpreted on every kind of value (lists of any "
    "length) and the emitted text is compared with the grammar."
)
ASSUMPTIONS = [
    "texts of up to seven units (a nested signature counts as two) with at most one character beyond ASCII, and arrays of 1, 2 and 254 to 257 dimensions",
    "empty angle brackets read as no arguments and a type parameter without a colon are documented leniencies",
]


NAMES = ("TypeSignature", "RefTypeSignature", "ClassTypeSignature", "Throws", "TypeArgument", "TypeParameter")
ROOTS = {
    "text::parse_simple": "SimpleClassTypeSignature", "text::parse_class": "ClassSignature", "text::parse_method": "MethodSignature",
    "text::parse_field": "FieldSignature", "text::parse_tysig": "TypeSignature", "text::parse_ref": "RefTypeSignature",
    "text::parse_classty": "ClassTypeSignature", "text::parse_param": "TypeParameter", "text::parse_throws": "Throws",
}
def run(R, mir):
    S = textspec.parsers(R, mir, NAMES, ROOTS, {None: 7})
    T = "RefTypeSignature"
    textspec.dims(R, S, "text::parse_ref", lambda n: (T, "ArrayRef", (n, ("TypeSignature", "Int", ()))))
    Pr = textspec.Printers(R, mir)
    for p, n in ROOTS.items():
        Pr.check(p.replace("parse_", "show_"), n, textspec.printed)
    Pr.check("text::show_arg", "TypeArgument", textspec.printed)
    R.floor("parsers", 9)
    R.floor("printers", 10)
