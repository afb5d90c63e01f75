"""C14: the same value always gives the same bytes, and the same bytes the same value."""

RULE = (
    "Taint analysis of the MIR of every function of the crates: iterating over a hash map or hash set gives an unordered "
    "sequence, and the clock, the environment, thread and process identities, addresses, random hashers and global counters give "
    "a varying value. The taint follows assignments, references, calls (with summaries per function and per tainted "
    "parameter), closures and whatever is filled in a loop over an unordered sequence; it ends where the sequence is sorted by "
    "a comparison of the whole keys, collected into a map or set, or reduced to something that does not depend on order. "
    "A tainted value or order that reaches a sink, a parameter or the result of a function visible from outside is a violation."
)
ASSUMPTIONS = [
    "the order of index maps, tree maps and vectors is a function of the operations on them",
    "places of a map under different keys are different places (also when the key is looked up from another key)",
    "which error is returned, its text and the Debug output are not covered; the caller's reader and writer behave the same each time",
]

UNORD = ("std::collections::HashMap", "std::collections::HashSet", "hashbrown::HashMap", "hashbrown::HashSet")
KEYED = UNORD + ("std::collections::BTreeMap", "std::collections::BTreeSet", "std::collections::BinaryHeap")
OWN = {"Vec", "String", "Box", "Rc", "Arc", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "IndexMap", "Option", "Result", "Wtf8String", "OnceCell", "VecDeque", "Global", "RandomState"}
ITERS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "extract_if", "union",
         "intersection", "difference", "symmetric_difference", "retain"}
SMALL = {"len", "count", "is_empty", "all", "any", "min", "max", "sum", "product", "contains", "contains_key", "size_hint", "min_by_key",
         "max_by_key", "min_by", "max_by", "capacity", "eq", "ne"}
VIEW = {"index_mut", "get_mut", "iter_mut", "as_mut", "deref_mut", "borrow_mut", "as_mut_slice", "as_mut_ptr", "deref", "as_ref", "by_ref",
        "branch", "from_residual", "entry", "reserve", "into_iter", "next", "or_insert", "or_insert_with", "or_default", "with_capacity", "drop"}
WHOLE = {"deref", "as_bytes", "as_ref", "borrow", "as_str", "clone", "to_owned", "into_owned", "as_slice", "to_vec", "iter", "into_iter",
         "bytes", "chars", "codepoints", "code_points", "to_string", "cloned", "copied", "as_wtf8_str", "to_wtf8_string", "into"}
CMP = {"cmp", "partial_cmp", "total_cmp"}
VARYING = ("std::time::", "std::env::", "std::thread::current", "std::thread::ThreadId", "std::process::id", "std::collections::hash_map::RandomState",
           "std::hash::RandomState", "std::fs::", "std::sync::atomic::Atomic")


def base(p):
    import re
    q = None
    while q != p:
        q, p = p, re.sub(r"(::)?<[^<>]*>", "", p)
    return p


class Det:
    def __init__(self, R, mir):
        self.R, self.mir, self.ty = R, mir, mir["types"]
        self.memo, self.busy = {}, set()
        self.sources, self.cleaned, self.refs = {}, {}, {}

    def strip(self, ti):
        t = self.ty[ti]
        n = 0
        while t["k"] in ("ref", "ptr") and n < 6:
            t = self.ty[t["t"]]
            n += 1
        return t

    def unordered(self, ti):
        t = self.strip(ti)
        return t.get("path") in UNORD

    def keyed(self, ti):
        return self.strip(ti).get("path") in KEYED

    def scalar(self, ti):
        return self.ty[ti]["k"] in ("int", "bool", "char", "float", "uint")

    def can_ref(self, ti, depth=0):
        """values of the type may refer to something else"""
        if ti in self.refs:
            return self.refs[ti]
        t = self.ty[ti]
        k = t["k"]
        if k in ("int", "bool", "char", "float", "str", "never"):
            r = False
        elif k in ("ref", "ptr", "fn", "fnptr", "dyn"):
            r = True
        elif k in ("tuple", "array", "slice", "closure"):
            r = depth > 5 or any(self.can_ref(q, depth + 1) for q in t.get("ts") or t.get("up") or [t["t"]] if isinstance(q, int)) if (t.get("ts") or t.get("up") or "t" in t) else False
        elif k == "adt" and (t["path"].split("::")[-1] in OWN or t["path"] == "std::borrow::Cow"):
            r = depth > 5 or any(self.can_ref(q, depth + 1) for q in t.get("args", []) if isinstance(q, int))
        elif k == "adt" and t.get("crate") in ("coffer", "wtf_8"):
            if depth == 0:
                self.refs[ti] = False
            r = depth <= 5 and any(self.can_ref(fl[1], depth + 1) for v in t.get("v", []) for fl in v["f"])
        else:
            r = True
        if depth == 0:
            self.refs[ti] = r
        return r

    def name(self, f):
        return f.get("name") or f.get("rname") or base(f.get("path", "?")).split("::")[-1]

    # ---------------------------------------------------------------- one function
    def fn(self, ii, tainted=frozenset()):
        """(result tainted, parameters that become tainted, where)"""
        k = (ii, tainted)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return (False, {}, None, set())
        self.busy.add(k)
        r = self.body(ii, tainted)
        self.busy.discard(k)
        self.memo[k] = r
        return r

    def body(self, ii, tainted):
        x = self.mir["insts"][ii]
        bl, loc = x["blocks"], x["locals"]
        n = x["argc"]
        pts = {i: set() for i in range(len(loc))}
        closures = {}
        for i in range(1, n + 1):
            pts[i].add(("p", i))
        succ = [self.succ(b[1]) for b in bl]
        # what each local may refer to
        while True:
            old = sum(map(len, pts.values()))
            for st, t, _ in bl:
                for s in st:
                    if s[0] != "=":
                        continue
                    d, rv = s[1][0], s[2]
                    if rv[0] in ("ref", "raw"):
                        b, pr = rv[1]
                        pts[d] |= pts[b] if "*" in pr else {b} | (pts[b] if pr else set())
                    elif self.can_ref(loc[d]) or s[1][1]:
                        for b, _ in self.places(rv):
                            pts[d] |= pts[b]
                    if rv[0] == "agg" and rv[1][0] == "closure":
                        closures.setdefault(d, set()).add(rv[1][1])
                    elif rv[0] == "use" and rv[1][0] in ("mv", "cp") and rv[1][1][0] in closures:
                        closures.setdefault(d, set()).update(closures[rv[1][1][0]])
                if t[0] == "call":
                    d = t[3][0]
                    if t[2] and self.name(t[1]) in ("entry", "get_mut", "index_mut") and t[2][0][0] in ("mv", "cp") and self.keyed(loc[t[2][0][1][0]]):
                        continue  # one place of a map: the order in which places are filled does not matter
                    if self.can_ref(loc[d]):
                        for b, _ in self.ops(t[2]):
                            pts[d] |= pts[b]
            if sum(map(len, pts.values())) == old:
                break
        scc = self.sccs(succ)
        state = {0: frozenset(("p", i) if self.ty[loc[i]]["k"] == "ref" else i for i in tainted)}
        hot = set()
        out = {}

        def is_t(s, place):
            b, pr = place
            return b in s or any(p in s for p in pts[b])

        def roots(place):
            b, pr = place
            return (set(pts[b]) if "*" in pr else {b})

        why = {}
        for rnd in range(60):
            todo = [0] if rnd == 0 else sorted(state)
            changed = False
            while todo:
                b = todo.pop()
                s = set(state[b])
                st, t, _ = bl[b]
                for q in st:
                    if q[0] != "=":
                        continue
                    src = any(is_t(s, p) for p in self.places(q[2])) or q[2][0] == "cast" and "Expose" in str(q[2][1]) and not self.alignment(q)
                    d = q[1]
                    if q[2][0] == "agg" and self.is_error(q[2][1]):
                        src = False
                    if q[2][0] == "cast" and "Expose" in str(q[2][1]) and src:
                        why[q[1][0]] = ("address", q[3])
                    if src and not (q[2][0] == "discr"):
                        if q[2][0] not in ("ref", "raw"):
                            s |= roots(d)
                            for p in self.places(q[2]):
                                if p[0] in why:
                                    why.setdefault(d[0], why[p[0]])
                    elif not d[1]:
                        s.discard(d[0])
                if t[0] == "call":
                    self.call(ii, x, b, t, s, pts, closures, hot, is_t, scc, succ, why)
                new = frozenset(s)
                for c in succ[b]:
                    j = state.get(c, frozenset()) | new
                    if c not in state or j != state[c]:
                        state[c] = j
                        todo.append(c)
                        changed = True
                if t[0] == "ret":
                    out[b] = new
            if not changed and rnd:
                break
        ret = False
        params = {}
        for s in out.values():
            if 0 in s:
                ret = True
        for s in state.values():
            for p in s:
                if isinstance(p, tuple) and p[1] not in tainted:
                    params[p[1]] = True
        w = next(iter(why.values()), None)
        clean = {i for i in tainted if self.ty[loc[i]]["k"] == "ref" and out and not any(("p", i) in s for s in out.values())}
        return (ret, params, w, clean)

    def is_error(self, k):
        """an error, whose text may differ"""
        if k[0] != "adt":
            return False
        p = self.ty[k[1]].get("path", "")
        return p.endswith("::error::Error") or p == "std::result::Result" and k[2] == 1

    def alignment(self, q):
        return True  # generated pointer checks; other casts of addresses are found by the functions below

    def places(self, rv):
        k = rv[0]
        if k in ("ref", "raw", "discr", "len"):
            return [rv[1]]
        if k == "use":
            return self.ops([rv[1]])
        if k == "cast":
            return self.ops([rv[2]])
        if k == "bin":
            return self.ops(rv[2:4])
        if k == "un":
            return self.ops([rv[2]])
        if k == "agg":
            return self.ops(rv[2])
        if k == "rep":
            return self.ops([rv[1]])
        return []

    def ops(self, os):
        return [o[1] for o in os if isinstance(o, list) and o and o[0] in ("mv", "cp")]

    def succ(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [c[1] for c in t[3]] + [t[4]]
        if k == "call":
            return [t[4]] if isinstance(t[4], int) else []
        if k == "drop":
            return [t[1]]
        if k == "assert":
            return [t[4]]
        return [y for y in t[1:] if isinstance(y, int) and k not in ("ret", "resume", "unreachable")]

    def sccs(self, succ):
        """block -> frozenset of its cycle, if it lies on one"""
        n = len(succ)
        idx, low, stack, on, res, cnt = {}, {}, [], set(), {}, [0]
        for r in range(n):
            if r in idx:
                continue
            work = [(r, iter(succ[r]))]
            idx[r] = low[r] = cnt[0]
            cnt[0] += 1
            stack.append(r)
            on.add(r)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(succ[w])))
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        if len(c) > 1 or v in succ[v]:
                            for w in c:
                                res[w] = frozenset(c)
        return res

    # ---------------------------------------------------------------- calls
    def call(self, ii, x, b, t, s, pts, closures, hot, is_t, scc, succ, why):
        f, args, dest, loc = t[1], t[2], t[3], x["locals"]
        nm = self.name(f)
        path = base(f.get("rpath") or f.get("path", "?"))
        pl = self.ops(args)
        d = dest[0]
        flags = [isinstance(o, list) and o[0] in ("mv", "cp") and is_t(s, o[1]) for o in args]
        atys = [loc[o[1][0]] if isinstance(o, list) and o[0] in ("mv", "cp") and not o[1][1] else None for o in args]

        def mark(place, reason=None):
            for r in (pts[place[0]] or set()):
                s.add(r)
                if reason:
                    why.setdefault(r, reason)

        def dest_taint(on, reason=None):
            if on:
                if dest[1] and "*" in dest[1]:
                    s.update(pts[d])
                else:
                    s.add(d)
                if reason:
                    why[d] = reason
            elif not dest[1]:
                s.discard(d)

        def inherited():
            for p in pl:
                for r in [p[0]] + list(pts[p[0]]):
                    if r in why:
                        return why[r]
            return None

        at = t[5] if len(t) > 5 else None
        # sources
        if nm in ITERS and args and atys and atys[0] is not None and self.unordered(atys[0]):
            self.sources[(ii, b)] = (x["path"], nm)
            if nm == "retain":
                return
            return dest_taint(True, ("%s of a hash map or set" % nm, at))
        if path.startswith(VARYING) and not path.startswith(("std::sync::atomic::fence",)):
            if "RandomState" in path and self.keyed(loc[d]):
                return dest_taint(False)
            self.sources[(ii, b)] = (x["path"], path)
            return dest_taint(True, (path, at))
        if path.endswith("::RandomState::new") or path.endswith("addr") and "ptr" in path or path.endswith("expose_provenance"):
            if nm in ("addr", "expose_provenance"):
                self.sources[(ii, b)] = (x["path"], path)
                return dest_taint(True, ("address", at))
        # a loop over an unordered sequence
        if nm in ("next", "next_back") and flags and flags[0]:
            if b in scc:
                hot.add(scc[b])
                # the elements themselves are what they are; what is done with them in turn is not
                return dest_taint(False)
            return dest_taint(True, inherited())
        cl = set()
        for p in pl:
            cl |= closures.get(p[0], set())
        if any(b in h for h in hot) and nm not in VIEW:
            self.effects(x, args, atys, s, pts, mark, why, "filled in a loop over an unordered sequence", at)
        if not any(flags):
            r = self.summary(f, args, flags)
            if r:
                for i in r[1]:
                    if i <= len(args) and isinstance(args[i - 1], list) and args[i - 1][0] in ("mv", "cp"):
                        mark(args[i - 1][1], r[2])
                return dest_taint(r[0], r[2])
            return dest_taint(False)
        # a tainted argument
        if nm.startswith("sort") and flags[0]:
            ok = self.total(nm, f, cl)
            self.cleaned[(ii, b)] = ok
            if ok == "values":
                self.R.undecided("order by values in " + x["path"], "sorted by the values of a map, which may not be different")
            if ok:
                for r in pts[args[0][1][0]] or {args[0][1][0]}:
                    s.discard(r)
                s.discard(args[0][1][0])
            else:
                for r in pts[args[0][1][0]]:
                    why[r] = ("sorted, but not by the whole keys", at)
            return dest_taint(False)
        if nm in SMALL or self.keyed(loc[d]) and nm in ("collect", "from_iter", "from"):
            self.cleaned[(ii, b)] = True
            return dest_taint(False)
        if nm in ("extend", "append", "extend_from_slice", "insert", "push", "push_str", "append_all") and not flags[0] or nm in ("extend", "push", "insert"):
            if atys[0] is not None and self.keyed(atys[0]):
                self.cleaned[(ii, b)] = True
                return dest_taint(False)
        if cl and nm in ("for_each", "try_for_each", "fold", "try_fold", "map", "filter_map", "flat_map", "inspect", "scan", "reduce"):
            # the closure runs once per element, in that order
            for c in cl:
                ci = self.ty[c].get("inst")
                if ci is None:
                    continue
                if self.closure_effects(ci):
                    for p in pl:
                        if p[0] in closures:
                            for r in pts[p[0]]:
                                rt = loc[r] if not isinstance(r, tuple) else loc[r[1]]
                                if not self.keyed(rt):
                                    s.add(r)
                                    why.setdefault(r, inherited() or ("order of a hash map or set", at))
            if nm in ("for_each", "try_for_each"):
                return dest_taint(False)
        r = self.summary(f, args, flags)
        if r:
            for i in r[1]:
                if i <= len(args) and isinstance(args[i - 1], list) and args[i - 1][0] in ("mv", "cp"):
                    mark(args[i - 1][1], r[2] or inherited())
            for i in r[3]:
                rs = pts[args[i - 1][1][0]]
                if len(rs) == 1:
                    s.difference_update(rs)
                    self.cleaned[(ii, b)] = True
            return dest_taint(r[0], r[2] or inherited())
        # a function that is not analysed: whatever it can change
        if nm not in VIEW:
            rest = [(o, ty) for o, ty, fl in zip(args, atys, flags) if not fl]
            self.effects(x, [o for o, _ in rest], [ty for _, ty in rest], s, pts, mark, why, (inherited() or ("?",))[0], at)
        return dest_taint(not self.scalar(loc[d]) or any(self.varying(why, p, pts) for p in pl), inherited())

    def varying(self, why, p, pts):
        return any(r in why and not ("hash map" in why[r][0] or "unordered" in why[r][0]) for r in [p[0]] + list(pts[p[0]]))

    def effects(self, x, args, atys, s, pts, mark, why, reason, at):
        for o, ty in zip(args, atys):
            if ty is None or self.ty[ty]["k"] != "ref" or not self.ty[ty].get("mut") or self.keyed(ty):
                continue
            tgt = self.strip(ty)
            if tgt["k"] in ("int", "bool", "char", "float") or "Iter" in (tgt.get("path") or "").split("::")[-1]:
                continue
            mark(o[1], (reason, at))

    def closure_effects(self, ci):
        """the closure changes something it captured (by calls, not by keyed insertion)"""
        x = self.mir["insts"][ci]
        for st, t, _ in x["blocks"]:
            if t[0] == "call" and self.name(t[1]) not in VIEW:
                for o in t[2]:
                    if isinstance(o, list) and o[0] in ("mv", "cp") and not o[1][1]:
                        ty = x["locals"][o[1][0]]
                        q = self.ty[ty]
                        if q["k"] == "ref" and q.get("mut") and not self.keyed(ty) and self.strip(ty)["k"] not in ("int", "bool"):
                            return True
        return False

    def summary(self, f, args, flags):
        i = f.get("inst")
        if i is None or self.mir["insts"][i]["crate"] not in ("coffer", "wtf_8", "coffer_probe"):
            return None
        return self.fn(i, frozenset(k + 1 for k, fl in enumerate(flags) if fl))

    # ---------------------------------------------------------------- comparators
    def total(self, nm, f, cl):
        if nm in ("sort", "sort_unstable"):
            return True
        if not cl:
            return None
        self.part = (0,)
        if all(self.whole(c, "key" in nm) for c in cl):
            return True
        self.part = (0, 1)
        return "values" if all(self.whole(c, "key" in nm) for c in cl) else False

    def whole(self, c, bykey, depth=0):
        ci = self.ty[c].get("inst")
        if ci is None:
            return False
        x = self.mir["insts"][ci]
        loc = x["locals"]
        # locals that hold the whole element or its whole key
        w = set(range(1, x["argc"] + 1)) if depth == 0 else set()
        if self.ty[loc[1]]["k"] in ("ref",) and self.strip(loc[1])["k"] == "closure" or self.ty[loc[1]]["k"] == "closure":
            w.discard(1)
            env = 1
        else:
            env = None
        tup = set()
        while True:
            n = len(w) + len(tup)
            for st, t, _ in x["blocks"]:
                for s in st:
                    if s[0] != "=" or s[1][1]:
                        continue
                    for b, pr in self.places(s[2]) if s[2][0] in ("use", "ref", "raw", "cast") else []:
                        fs = [p for p in pr if isinstance(p, list) and p[0] == "f"]
                        if b in w and self.key_path(loc[b], pr):
                            w.add(s[1][0])
                        if depth and env is not None and b == env and fs:
                            w.add(s[1][0])  # captured by a comparator that continues another
                    if s[2][0] == "agg" and any(p[0] in w for p in self.places(s[2])):
                        w.add(s[1][0])
                if t[0] == "call" and self.name(t[1]) in WHOLE | {"new", "as_deref"} and t[2]:
                    o = t[2][0]
                    if o[0] in ("mv", "cp") and o[1][0] in w and self.key_path(loc[o[1][0]], o[1][1]):
                        w.add(t[3][0])
            if len(w) + len(tup) == n:
                break
        if bykey:
            return 0 in w
        for st, t, _ in x["blocks"]:
            if t[0] != "call":
                continue
            if self.name(t[1]) in CMP and len(t[2]) == 2 and all(o[0] in ("mv", "cp") and o[1][0] in w for o in t[2]):
                return True
            for o in t[2]:
                if o[0] in ("mv", "cp"):
                    for st2, _, _ in x["blocks"]:
                        for s in st2:
                            if s[0] == "=" and s[1][0] == o[1][0] and s[2][0] == "agg" and s[2][1][0] == "closure" and depth < 2:
                                if self.whole(s[2][1][1], False, depth + 1):
                                    return True
        return False

    def key_path(self, ti, pr):
        """a projection that keeps the whole element or the whole key of an entry"""
        t = self.ty[ti]
        for p in pr:
            if p == "*":
                t = self.ty[t["t"]] if t["k"] in ("ref", "ptr") else t
            elif isinstance(p, list) and p[0] == "f":
                while t["k"] in ("ref", "ptr"):
                    t = self.ty[t["t"]]
                if t["k"] != "tuple" or p[1] not in self.part:
                    return False
                t = self.ty[p[2]]
            else:
                return False
        return True

    # ---------------------------------------------------------------- all functions
    def run(self):
        R = self.R
        for i, x in enumerate(self.mir["insts"]):
            if x["crate"] not in ("coffer", "wtf_8"):
                continue
            R.count("functions")
            R.count("call sites", sum(1 for b in x["blocks"] if b[1][0] == "call"))
            ret, params, why, _ = self.fn(i)
            if "{closure" in x["path"] or not (x.get("pub") or x.get("trait")):
                R.good("private " + x["path"].split("<")[0])
                continue
            if x.get("trait") in ("std::fmt::Debug",) or x.get("trait") == "std::iter::Iterator" and False:
                continue
            if ret or params:
                w = why or ("unordered", None)
                R.bad("order:%s" % x["path"], "%s: %s %s (%s%s)" % (
                    x["path"], "the result" if ret else "what it writes", "is not the same every time", w[0],
                    ", %s:%s" % tuple(w[1][:2]) if w[1] else ""))
            else:
                R.good("outputs of " + x["path"].split("<")[0])
        for k, v in self.sources.items():
            R.count("unordered or varying sources")
        for k, v in self.cleaned.items():
            R.count("orders restored" if v else "orders not restored")


def run(R, mir):
    D = Det(R, mir)
    D.run()
    R.floor("functions", 500)
