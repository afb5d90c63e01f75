"""C11: reading never panics, whatever the input."""
import re
from codec import Codecs, NoSource, tainted, has_unk
from interp import Budget, Out
from terms import *

RULE = (
    "The MIR of every reader is abstractly interpreted on an input of which nothing is known (every read may fail, every byte "
    "may have any value, every lookup in the constant pool may fail or give any value of its type; nested readers are analysed "
    "on their own; loops by widening). Every path that ends in a panic (failed assertion, arithmetic overflow, index out of "
    "bounds, unwrap, unreachable code that is reached, division by zero), and every panicking precondition of a library call "
    "that free input can falsify, is a violation. An obligation is one path that ends without panic, or one site whose "
    "condition is proved."
)
ASSUMPTIONS = [
    "strings in a pool are well-formed WTF-8 (C07, C08); parsed array types have at least one dimension and a text that starts with [ parses as an array type (C09)",
    "each late-resolved cell is registered once (the event is checked at each registration)",
    "memory is sufficient; recursion depth is not bounded (stack overflow on deeply nested input is not decided)",
    "debug assertions on pointer alignment in generated code hold",
]


class NoPanic:
    def __init__(self, R, mir):
        self.R, self.mir = R, mir
        self.C = Codecs(mir)
        self.ip = self.C.ip
        self.C.lookups_nt = True
        self.ip.atoms.insert(0, self.a_points)
        self.lemma = {}

    def a_points(self, ip, s, f, a, dti, site):
        """the next code point of a well-formed string: nothing at its end, otherwise any code point (C08)"""
        p = f.get("rpath") or f["path"]
        if p.endswith("::unreachable_unchecked"):
            return [Out("panic", s, "unreachable_unchecked")]
        if "Wtf8CodePoints" not in p or (f.get("rname") or f.get("name")) != "next":
            return None
        M = ip.models
        if not M.is_opt(dti):
            return None
        cp = self.C.ty[dti]["args"][0]
        loc = M.loc(s, a[0])
        u = s.fresh()
        ip.store(s, loc, mk("sym", "points:%s:%d" % (s.ctx, u), -1))
        end = s.copy()
        return M.outs((s, M.some(dti, mk("rd", "point:%s:%d" % (s.ctx, u), 0, *[mk("it", x) for x in s.ctx], cp))), (end, M.none(dti)))

    def excluded(self, o):
        """a path that a lemma rules out"""
        f = o.s.f
        ts = [(k[0], k[1:]) for k in f.order]
        for k, v in ts:
            if k.op == "fld" and k.a[0].op == "app" and k.a[0].a[0] == "parse" and v == (0, 0):
                return "parsed arrays have dimensions"
            if k.op == "discr" and k.a[0].op == "app" and k.a[0].a[0] == "parse":
                # '[' starts an array
                arr = [i for i, x in enumerate(self.C.ty[k.a[0].a[-1]].get("v", [])) if x["n"] == "ArrayRef"]
                if arr and f.decide(mk("eq0", sub(k, I(arr[0])))) == 0 and any(
                    q.op in ("rd", "fld", "bits") and "point:" in show(q) and f.value(q) == ord("[") for q, _ in ts
                ):
                    return "[ starts an array"
        if "cellset" in o.s.tags:
            return "cells are set once"
        return None

    def judge(self, name, outs):
        R = self.R
        n = 0
        for o in outs:
            regs = [e for e in o.s.ev if e[0] == "resolve"]
            for j, e in enumerate(regs):
                if e[3].op == "sym" or has_unk(e[3]):
                    continue  # a cell of the caller
                if e[3].op != "cell0" or any(q[2] is e[2] for q in regs[:j]):
                    R.bad("cell:%s" % name, "a cell is registered for resolution that is not empty, or twice: " + show(e[3])[:200])
                else:
                    R.good("cell registered by " + name)
            if o.k != "panic":
                n += 1
                continue
            why = self.excluded(o)
            if why:
                self.lemma[why] = self.lemma.get(why, 0) + 1
                n += 1
                continue
            text = "panics (%s) when %s" % (o.v, "; ".join("%s:%s" % (show(a[0])[:120], a[1:]) for a in o.s.f.order[-8:]))
            own = o.v == "map index" and [k[0] for k in o.s.f.order if k[0].op == "app" and k[0].a[0] == "maphas"][-1:]
            if any(has_unk(k[0]) for k in o.s.f.order if not own or k[0] is not own[0]) or own and not free_key(own[0].a[2]):
                R.undecided("%s: %s" % (name, o.v), text[:300])
            else:
                R.bad("panic:%s:%s" % (name, o.v), text)
        if n:
            R.good(name, n)

    def sites(self, name):
        """preconditions of library calls"""
        ip, R = self.ip, self.R
        for (inst, site, kind), (ok, bad, ex) in list(ip.obl.items()):
            if kind.startswith("panic:") or kind.startswith("assert:"):
                continue
            where = "%s in %s" % (kind, self.mir["insts"][inst]["path"])
            if not bad:
                R.good(where, ok)
                continue
            cond = ex[0]
            if cond is None or not free_input(cond):
                R.undecided("%s: %s" % (name, where), show(cond)[:200] if cond is not None else "")
            else:
                R.bad("precondition:%s:%s" % (name, where), "not implied on the path: " + show(cond)[:400])
        ip.obl.clear()

    def run_one(self, name, fn):
        ip, R = self.ip, self.R
        ip.steps, ip.max_steps = 0, 3000000
        ip.nofail = False
        ip.assume_lengths = False
        ip.obl.clear()
        try:
            outs = fn()
        except NoSource:
            return False
        except Infeasible_ as e:
            return False
        except (Budget, RecursionError, MemoryError, Exception) as e:
            ip.stack.clear()
            R.undecided(name, "%s %s" % (type(e).__name__, str(e)[:200]))
            return False
        self.judge(name, outs)
        self.sites(name)
        return True

    def readers(self):
        C, R = self.C, self.R
        for k in sorted(C.index):
            d = C.index[k]
            for i in d.get("read_from", ()):
                x = self.mir["insts"][i]
                if C.unknown_source(C.ty[x["locals"][x["argc"]]]["t"]) is not None:
                    C.root = i
                    if self.run_one("%s as %s" % (k[1], k[0]), lambda: C.run_reader(self.ip.new_state(), i, None)):
                        R.count("readers")
                    break
        R.floor("readers", 60)

    def lookups(self):
        C, R, ip = self.C, self.R, self.ip
        for i, x in enumerate(self.mir["insts"]):
            m = re.match(r"coffer::ConstantPoolReader::(read_\w+)$", x["path"])
            m2 = re.search(r"as coffer::ConstantPoolReader>::(\w+)$", x["path"])
            if not m and not m2:
                continue
            name = (m or m2).group(1)
            C.root = i

            def go():
                s = ip.new_state()
                args = []
                for j in range(x["argc"]):
                    ti = x["locals"][j + 1]
                    if C.ty[ti]["k"] == "ref":
                        inner = C.ty[ti]["t"]
                        args.append(mk("ref", s.alloc(mk("sym", "arg%d" % j, inner)), ()))
                    else:
                        args.append(mk("sym", "arg%d" % j, ti))
                return ip.run_fn(s, i, args)

            if self.run_one("lookup %s (%s)" % (name, C.ty.s(x["locals"][1])[:60]), go):
                R.count("lookups")
        R.floor("lookups", 12)


class Infeasible_(Exception):
    pass


def free_input(t):
    """nothing but input, constants and lengths"""
    return not contains(t, lambda y: y.op in ("phi", "unk", "undef", "it", "mget", "opaque", "acc") or (y.op == "app"))


def free_key(t):
    """a value read from the input, or a part of a structure that was"""
    while t.op in ("fld", "elem", "bits", "wrap", "payload"):
        t = t.a[0]
    return t.op == "rd"


def run(R, mir):
    N = NoPanic(R, mir)
    N.readers()
    N.lookups()
    for k, n in N.lemma.items():
        R.count("paths excluded by: " + k, n)
    import c07, c09, c10

    R.lemma("strings", c07, mir, lambda k: ":panic" in k and not k.startswith("enc"))
    R.lemma("descriptors", c09, mir, lambda k: k.endswith(":panic") and k.startswith("parse") or " reads " in k)
    R.lemma("signatures", c10, mir, lambda k: k.endswith(":panic") and k.startswith("parse") or " reads " in k)
