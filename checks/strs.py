"""Token grammars of UTF-8-like encodings, and explorations of string loops over them."""
from codec import Codecs, has_unk, has_bad, tainted
from interp import Budget, Out
from state import Facts, Infeasible
from terms import *
from bdd import Bits, NoBits
from tok import Explorer, Move, GiveUp, boxes

ANY = (0, 255)
CONT = (0x80, 0xBF)
# lead byte, second byte, ...
ASCII = [[(0x00, 0x7F)]]
TWO = [[(0xC2, 0xDF)], [CONT]]
E0 = [[(0xE0, 0xE0)], [(0xA0, 0xBF)], [CONT]]
E1 = [[(0xE1, 0xEC), (0xEE, 0xEF)], [CONT], [CONT]]
ED = [[(0xED, 0xED)], [(0x80, 0x9F)], [CONT]]
HIGH = [[(0xED, 0xED)], [(0xA0, 0xAF)], [CONT]]
LOW = [[(0xED, 0xED)], [(0xB0, 0xBF)], [CONT]]
F0 = [[(0xF0, 0xF0)], [(0x90, 0xBF)], [CONT], [CONT]]
F1 = [[(0xF1, 0xF3)], [CONT], [CONT], [CONT]]
F4 = [[(0xF4, 0xF4)], [(0x80, 0x8F)], [CONT], [CONT]]
BMP = [("ascii", ASCII), ("two bytes", TWO), ("three bytes e0", E0), ("three bytes", E1), ("three bytes ed", ED)]
SUPP = [("four bytes f0", F0), ("four bytes", F1), ("four bytes f4", F4)]


def complement(ivs, top=255):
    r, at = [], 0
    for lo, hi in sorted(ivs):
        if lo > at:
            r.append((at, lo - 1))
        at = max(at, hi + 1)
    if at <= top:
        r.append((at, top))
    return r


def malformed(pats):
    """byte patterns that no string starting with one of the patterns begins with: (name, pattern, look-ahead)"""
    flat = [b for p in pats for b in boxes(p)]
    res = []

    def rec(prefix, cands, d):
        # the string may end here, in the middle of a sequence
        if d:
            res.append(("ends after %d bytes" % d, [[x] for x in prefix], "end"))
        # atoms of the next byte
        cuts = sorted({c[d][0] for c in cands} | {c[d][1] + 1 for c in cands} | {0, 256})
        for lo, hi in zip(cuts, cuts[1:]):
            sub_ = [c for c in cands if c[d][0] <= lo and hi - 1 <= c[d][1]]
            if not sub_:
                res.append(("byte %d in %02x..%02x" % (d + 1, lo, hi - 1), [[x] for x in prefix] + [[(lo, hi - 1)]], None))
            elif any(len(c) > d + 1 for c in sub_):
                rec(prefix + ((lo, hi - 1),), sub_, d + 1)

    rec((), flat, 0)
    return res


def wtf8_spec(bad=False):
    """well-formed WTF-8: generalised UTF-8 without surrogate pairs"""
    S = {"n": [], "h": [], "dead": []}
    for q in ("n", "h"):
        for n, p in BMP + SUPP:
            S[q].append(Move(n, p, "n"))
        S[q].append(Move("lead surrogate", HIGH, "h"))
        if q == "n":
            S[q].append(Move("trail surrogate", LOW, "n"))
        elif bad:
            S[q].append(Move("surrogate pair", LOW, "dead", bad=True))
        if bad:
            for n, p, la in malformed([p for _, p in BMP + SUPP] + [HIGH, LOW]):
                S[q].append(Move("malformed: " + n, p, "dead", la=la, bad=True))
    if bad:
        S["dead"].append(Move("anything", [[ANY]], "dead", bad=True))
    return S


def insts_of(mir, path):
    return [i for i, x in enumerate(mir["insts"]) if x["path"] == path]
