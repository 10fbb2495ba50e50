"""Interprocedural write-effect summaries over access paths, with lock sets, for the bodies of parallel loops and tasks.

A location is (root, path).  Roots: ('g', key) global or static; ('p', i) parameter i; ('t',) the object a method runs on;
('v', id) a local of this or (in a lambda) of an enclosing function; ('f',) fresh storage; ('u',) unknown.
Path steps: 'field', '*' (through a raw or shared pointer), '~' (through an owner), ('[', index)."""
import model, effects
from flow import short, operands
from model import strip, walk, fn_nodes

MAXP = 7
IDENT = {"move", "forward", "as_const", "ref", "addressof", "static_pointer_cast", "launder"}
ELEM = {"at", "front", "back", "operator[]", "emplace_back", "emplace", "try_emplace"}
ITER = {"begin", "end", "data", "find", "rbegin", "rend", "lower_bound", "upper_bound", "cbegin", "cend", "c_str", "insert", "erase", "prev", "next", "find_if",
        "remove", "remove_if", "unique", "min_element", "max_element"}
ACCESS = ELEM - {"emplace_back", "emplace", "try_emplace"} | {"begin", "end", "data", "find", "rbegin", "rend", "get", "value", "operator*", "operator->", "lower_bound", "upper_bound",
                                                               "native_handle", "lock", "unlock", "try_lock", "wait", "c_str", "local", "operator()", "str", "release_"}
SAFE = ("std::atomic", "tbb::", "oneapi::tbb", "std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::once_flag", "std::unique_lock", "std::lock_guard",
        "std::scoped_lock", "std::condition_variable")
ALGO_W = {"sort", "fill", "copy", "transform", "reverse", "iota", "stable_sort", "swap", "memcpy", "memset", "memmove", "remove_if", "unique", "rotate", "partition", "nth_element",
          "copy_n", "fill_n", "shuffle", "generate"}
PARCALL = ("parallel_for", "parallel_for_each", "run", "parallel_invoke", "parallel_reduce", "parallel_sort", "run_and_wait", "execute")


def bare(t):
    t = (t or "").strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.endswith("const"):
            t = t[:-5].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        else:
            return t


def safe_type(t):
    return bare(t).startswith(SAFE)


def is_ptr(t):
    t = bare(t)
    return t.endswith("*")


def is_shared(t):
    return bare(t).startswith(("std::shared_ptr", "std::weak_ptr"))


def is_unique(t):
    return bare(t).startswith(("std::unique_ptr", "std::optional"))


def is_view(t):
    t = bare(t)
    return t.startswith(("std::span", "std::basic_string_view", "__gnu_cxx::__normal_iterator", "std::reference_wrapper", "tbb::blocked_range")) or "iterator" in t.lower().split("<")[0]


def is_map(t):
    return bare(t).startswith(("std::map", "std::unordered_map", "std::multimap"))


def is_par(x):
    return x.get("k") == "Call" and short(x) in PARCALL and (x["n"].startswith("logging::") or "tbb" in x["n"] or "oneapi" in x["n"])


class FnInfo:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.parm = {p["id"]: i for i, p in enumerate(f["params"])}
        self.ptype = [p["t"] for p in f["params"]]
        self.own = {}
        self.defs = {}
        self.bind = {}
        self.assigned = set()
        self.elems = {}
        for x in fn_nodes(f):
            k = x.get("k")
            if k in ("Var", "Decomp"):
                self.own[x["id"]] = x
                if x.get("init") is not None:
                    self.defs.setdefault(x["id"], []).append(("v", x["init"]))
                for b in x.get("b", ()):
                    self.bind[b["id"]] = (x, b)
            elif k == "RFor":
                v = x["var"]
                self.own[v["id"]] = v
                self.defs.setdefault(v["id"], []).append(("r", x["range"]))
                for b in v.get("b", ()):
                    self.bind[b["id"]] = (v, b)
            elif k == "Bin" and x["op"] in effects.ASG and strip(x["a"]).get("k") == "Ref":
                i = strip(x["a"]).get("id")
                self.assigned.add(i)
                if x["op"] == "=":
                    self.defs.setdefault(i, []).append(("v", x["b"]))
            elif k == "Call" and x.get("op") == "=" and operands(x) and strip(operands(x)[0]).get("k") == "Ref":
                i = strip(operands(x)[0]).get("id")
                self.assigned.add(i)
                if len(operands(x)) > 1:
                    self.defs.setdefault(i, []).append(("v", operands(x)[1]))
            elif k == "Un" and x["op"] in ("++", "--", "p++", "p--") and strip(x["e"]).get("k") == "Ref":
                self.assigned.add(strip(x["e"]).get("id"))
            elif k == "Call" and x.get("op") in ("++", "--", "+=", "-=") and operands(x) and strip(operands(x)[0]).get("k") == "Ref":
                self.assigned.add(strip(operands(x)[0]).get("id"))
            elif k == "Call" and short(x) in ("push_back", "emplace_back", "insert", "push", "push_front") and x.get("obj") is not None and x.get("args") and strip(x["obj"]).get("k") == "Ref":
                self.elems.setdefault(strip(x["obj"]).get("id"), []).append(x["args"][-1])
            elif k == "Try":
                for h in x.get("h", ()):
                    if "id" in h:
                        self.own[h["id"]] = {"id": h["id"], "t": h.get("t", ""), "n": h.get("n", "")}


class Par:
    def __init__(self, P, skip=None, reads=False, moves=False):
        self.moves = moves
        self.P, self.reads = P, reads
        self.skip = skip or (lambda f: False)
        self.info = {}
        self.sum = {}      # key -> {(root, path): (site text, frozenset locks, kind)}
        self.rets = {}     # key -> set of locs
        self.busy = set()
        self.done = set()
        self.retbusy = set()
        self.lockcache = {}

    def fi(self, f):
        k = f["key"]
        if k not in self.info:
            self.info[k] = FnInfo(self.P, f)
        return self.info[k]

    # ---- locations
    def cat(self, locs, *steps):
        out = set()
        for r, p in locs:
            if r[0] in ("u", "f"):
                out.add((r, ()))
                continue
            if p and p[-1] == "...":
                out.add((r, p))
                continue
            p2 = p + steps
            if len(p2) > MAXP:
                p2 = p2[:MAXP] + ("...",)
            out.add((r, p2))
        return out

    def var(self, I, x, seen):
        i = x.get("id")
        if x.get("gk"):
            return {(("g", x["gk"]), ())}
        if i in I.parm and not x.get("cap"):
            return {(("p", I.parm[i]), ())}
        if i in I.bind:
            v, b = I.bind[i]
            if b.get("e") is not None:
                return self.loc(I, b["e"], seen)
            base = self.varbyid(I, v["id"], seen)
            return self.cat(base, b["n"])
        return self.varbyid(I, i, seen)

    def varbyid(self, I, i, seen):
        v = I.own.get(i)
        if v is None:
            if i in I.parm:
                return {(("p", I.parm[i]), ())}
            return {(("v", i), ())}
        if v.get("gk"):
            return {(("g", v["gk"]), ())}
        if v["t"].endswith("&") and i not in seen:
            out = set()
            for kind, d in I.defs.get(i, ())[:1]:
                out |= self.defloc(I, kind, d, seen | {i})
            return out or {(("u",), ())}
        return {(("v", i), ())}

    def defloc(self, I, kind, d, seen):
        l = self.loc(I, d, seen)
        if kind == "r":
            l = self.cat(l, ("[", ("o",)))
        return l

    def ptr(self, I, e, seen=frozenset()):
        """locations a pointer-like expression points to"""
        e = strip(e)
        if e is None:
            return {(("u",), ())}
        k = e.get("k")
        if k in ("Null", "Zero", "Int", "Str"):
            return set()
        if k == "Un" and e["op"] == "&":
            return self.loc(I, e["e"], seen)
        if k == "This":
            return {(("t",), ())}
        if k in ("New",):
            return {(("f",), ())}
        if k == "Bin" and e["op"] in ("+", "-"):
            for a in (e["a"], e["b"]):
                if is_ptr(a.get("t")) or is_ptr(a.get("from")) or a.get("t", "").endswith("]"):
                    o = e["b"] if a is e["a"] else e["a"]
                    ix = self.idx(I, o) if e["op"] == "+" else ("o",)
                    return {self.bump(l, ix) for l in self.ptr(I, a, seen)}
        if k == "Bin" and e["op"] == "=":
            return self.ptr(I, e["b"], seen)
        if k == "Un" and e["op"] in ("++", "--", "p++", "p--"):
            return {self.bump(l, ("o",)) for l in self.ptr(I, e["e"], seen)}
        if k == "Cond":
            return self.ptr(I, e["a"], seen) | self.ptr(I, e["b"], seen)
        if k == "Init" and len(e.get("c", ())) == 1:
            return self.ptr(I, e["c"][0], seen)
        if k == "Construct":
            if e.get("copy") or is_shared(e.get("t")) or is_view(e.get("t")):
                if e.get("args"):
                    return self.ptr(I, e["args"][0], seen)
                return set()
            return {(("f",), ())}
        if k == "Call":
            n = short(e)
            o = operands(e)
            if n in IDENT and o:
                return self.ptr(I, o[0], seen)
            if n in ("make_unique", "make_shared"):
                return {(("f",), ())}
            if e.get("op") == "->" and o:
                return self.loc(I, e, seen)
            if self.twosided(o) and e.get("op") == "[]":
                return self.cat(self.loc(I, e, seen), "~" if is_unique(e.get("t")) else "*")
            fs = self.P.callees(e)
            if fs:
                r = self.ret(I, e, seen)
                if any(f["ret"].endswith("&") for f in fs):
                    return self.cat(r, "~" if is_unique(e.get("t")) else "*") if not is_view(e.get("t")) else r
                return r
            if n == "get" and o and e.get("obj") is not None:
                if is_ptr(o[0].get("t")):
                    pass
                t = o[0].get("t")
                return self.cat(self.loc(I, o[0], seen), "~") if is_unique(t) else self.ptr(I, o[0], seen)
            if n in ITER and o:
                return self.cat(self.loc(I, o[0], seen) if not is_view(o[0].get("t")) and not is_ptr(o[0].get("t")) else self.ptr(I, o[0], seen), ("[", ("o",))) if n not in ("data", "c_str") else \
                    {self.bump(l, ("c", 0), new=True) for l in (self.loc(I, o[0], seen) if not is_view(o[0].get("t")) else self.ptr(I, o[0], seen))}
            if e.get("op") in ("+", "-") and o:
                ix = self.idx(I, o[1]) if e["op"] == "+" and len(o) > 1 else ("o",)
                return {self.bump(l, ix) for l in self.ptr(I, o[0], seen)}
            if e.get("op") in ("++", "--") and o:
                return {self.bump(l, ("o",)) for l in self.ptr(I, o[0], seen)}
            if e.get("op") == "=" and len(o) > 1:
                return self.ptr(I, o[1], seen)
        if k == "Ref" and not e.get("gk"):
            i = e.get("id")
            if i in I.own and not I.own[i]["t"].endswith("&") and i not in seen:
                out = set()
                for kind, d in I.defs.get(i, ()):
                    if kind == "r":
                        l = self.loc(I, d, seen | {i})
                        # the element's value is the pointer
                        r = strip(d)
                        el = I.elems.get(r.get("id")) if r is not None and r.get("k") == "Ref" and r.get("id") in I.own else None
                        if el is not None:
                            for a in el:
                                out |= self.ptr(I, a, seen | {i})
                        else:
                            out |= self.cat(l, ("[", ("o",)), "*")
                    else:
                        out |= self.ptr(I, d, seen | {i})
                if i in I.assigned and not is_shared(I.own[i]["t"]):
                    pass
                return out
        t = e.get("t", "")
        if is_view(t):
            return self.cat(self.loc(I, e, seen))
        l = self.loc(I, e, seen)
        if bare(t).endswith("]"):
            return self.cat(l, ("[", ("c", 0)))
        # element pointers of a local container
        return self.cat(l, "~" if is_unique(t) else "*")

    @staticmethod
    def twosided(o):
        return bool(o) and bare(o[0].get("t", "")).startswith("twosided<")

    def bump(self, l, ix, new=False):
        r, p = l
        if r[0] in ("u", "f"):
            return l
        if new:
            return next(iter(self.cat({l}, ("[", ix))))
        if p and isinstance(p[-1], tuple):
            old = p[-1][1]
            return (r, p[:-1] + (("[", self.addidx(old, ix)),))
        if p and p[-1] in ("*", "~"):
            return next(iter(self.cat({l}, ("[", ix))))
        if not p:
            return (r, (("[", ix),))
        return l

    @staticmethod
    def addidx(a, b):
        if a == ("c", 0):
            return b
        if b == ("c", 0):
            return a
        if a[0] == "p":
            return a
        if b[0] == "p":
            return b
        return ("o",)

    def loc(self, I, e, seen=frozenset()):
        """locations of the object denoted by an expression"""
        e = strip(e)
        if e is None:
            return {(("u",), ())}
        k = e.get("k")
        if k == "Ref":
            return self.var(I, e, seen)
        if k == "This":
            return {(("t",), ())}
        if k == "Member":
            if e.get("anon"):
                return self.ptr(I, e["base"], seen) if e.get("arrow") else self.loc(I, e["base"], seen)
            b = e.get("base")
            if b is None:
                return {(("t",), (e["f"],))}
            st = e["f"]
            if st in ("front", "back") and e.get("cls", "").startswith("twosided"):
                st = ("[", ("c", 0 if st == "front" else 1))
            return self.cat(self.ptr(I, b, seen) if e.get("arrow") or strip(b).get("k") == "This" else self.loc(I, b, seen), st)
        if k == "Index":
            b = e["base"]
            sb = strip(b)
            ix = self.idx(I, e["idx"])
            if sb.get("t", "").rstrip().endswith("]"):
                return self.cat(self.loc(I, sb, seen), ("[", ix))
            return {self.bump(l, ix) if l[1] and isinstance(l[1][-1], tuple) else next(iter(self.cat({l}, ("[", ix)))) for l in self.ptr(I, b, seen)}
        if k == "Un":
            if e["op"] == "*":
                return self.ptr(I, e["e"], seen)
            if e["op"] == "&":
                return self.loc(I, e["e"], seen)
            if e["op"] in ("++", "--"):
                return self.loc(I, e["e"], seen)
        if k == "Cond":
            return self.loc(I, e["a"], seen) | self.loc(I, e["b"], seen)
        if k == "Bin" and e["op"] in effects.ASG:
            return self.loc(I, e["a"], seen)
        if k == "Bin" and e["op"] == ",":
            return self.loc(I, e["b"], seen)
        if k == "Construct":
            if (e.get("copy") or is_view(e.get("t"))) and e.get("args"):
                return self.loc(I, e["args"][0], seen)
            return {(("f",), ())}
        if k == "Init" and len(e.get("c", ())) == 1 and e["c"][0] is not None:
            return self.loc(I, e["c"][0], seen)
        if k == "Call":
            n = short(e)
            o = operands(e)
            if n in IDENT and o:
                return self.loc(I, o[0], seen)
            if e.get("op") in ("*", "->") and o:
                t = o[0].get("t", "")
                if is_unique(t):
                    return self.cat(self.loc(I, o[0], seen), "~")
                return self.ptr(I, o[0], seen)
            if self.twosided(o) and e.get("op") == "[]":
                return self.cat(self.loc(I, o[0], seen), ("[", self.idx(I, o[-1])))
            fs = self.P.callees(e)
            if fs:
                if e.get("t") and not e.get("t", "").endswith("&") and not any(f["ret"].endswith(("&", "*")) for f in fs):
                    return {(("f",), ())}
                return self.ret(I, e, seen)
            if e.get("op") == "[]" and len(o) == 2 or n in ("at", "operator[]") and len(o) >= 2:
                ix = self.idx(I, o[-1])
                if bare(o[0].get("t", "")).startswith(("std::vector<bool", "std::bitset")):
                    ix = ("o",)  # neighbouring elements share storage
                if is_view(o[0].get("t")) or is_ptr(o[0].get("t")):
                    return {self.bump(l, ix) if l[1] and isinstance(l[1][-1], tuple) else next(iter(self.cat({l}, ("[", ix)))) for l in self.ptr(I, o[0], seen)}
                if bare(o[0].get("t", "")).startswith("std::unique_ptr"):
                    return self.cat(self.loc(I, o[0], seen), "~", ("[", ix))
                return self.cat(self.loc(I, o[0], seen), ("[", ix))
            if n in ("front", "back", "emplace_back", "value", "get", "local", "value_or") and o:
                if n == "local":
                    return {(("f",), ())}
                if n in ("value",):
                    return self.cat(self.loc(I, o[0], seen), "~")
                return self.cat(self.loc(I, o[0], seen), ("[", ("c", 0) if n == "front" else ("o",)))
            if e.get("op") in effects.ASG and o:
                return self.loc(I, o[0], seen)
        return {(("u",), ())}

    def idx(self, I, e, depth=0):
        """how an index expression depends on the parameters: ('p', i) means distinct for distinct parameters"""
        e = strip(e)
        if e is None or depth > 12:
            return ("o",)
        if "cv" in e or e.get("k") == "Int":
            return ("c", e.get("cv", e.get("v")))
        k = e.get("k")
        if k == "Ref":
            i = e.get("id")
            if i in I.parm and not e.get("cap"):
                return ("p", I.parm[i]) if i not in I.assigned else ("o",)
            if i in I.own:
                ds = I.defs.get(i, ())
                if len(ds) == 1 and ds[0][0] == "v" and i not in I.assigned:
                    return self.idx(I, ds[0][1], depth + 1)
                if len(ds) == 1 and ds[0][0] == "r" and i not in I.assigned:
                    return ("o",)
                return ("o",)
            return ("v", i) if i else ("o",)
        if k == "Bin" and e["op"] in ("+", "-", "*"):
            if e["op"] == "-" and (is_ptr(e["a"].get("t")) or is_ptr(strip(e["a"]).get("t"))):
                r = set()
                for _, p in self.ptr(I, e["a"]):
                    r.add(p[-1][1] if p and isinstance(p[-1], tuple) else (("p", _[1]) if _[0] == "p" and p in ((), ("*",)) else ("o",)))
                return r.pop() if len(r) == 1 else ("o",)
            a, b = self.idx(I, e["a"], depth + 1), self.idx(I, e["b"], depth + 1)
            if a[0] == "p" and b[0] == "p" and a == b and e["op"] == "-":
                return ("o",)
            for z in (a, b):
                if z[0] == "p":
                    return z
            if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
                return ("c", {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[e["op"]])
            return ("o",)
        if k == "Un" and e["op"] in ("*", "&", "+"):
            s = strip(e["e"])
            if e["op"] == "&" and s.get("k") == "Index":
                return self.idx(I, s["idx"], depth + 1)
            if e["op"] == "&" and s.get("k") == "Call" and (s.get("op") == "[]" or short(s) == "at") and operands(s):
                return self.idx(I, operands(s)[-1], depth + 1)
            return self.idx(I, e["e"], depth + 1)
        if k == "Bin" and e["op"] == "=":
            return self.idx(I, e["b"], depth + 1)
        if k == "Call":
            if e.get("op") in ("*", "->"):
                return self.idx(I, operands(e)[0], depth + 1)
            if short(e) in IDENT or short(e) == "get":
                o = operands(e)
                return self.idx(I, o[0], depth + 1) if o else ("o",)
            fs = self.P.callees(e)
            if len(fs) == 1:
                return self.retidx(I, e, fs[0], depth)
        if k == "Construct" and len(e.get("args", ())) == 1:
            return self.idx(I, e["args"][0], depth + 1)
        return ("o",)

    def retidx(self, I, e, f, depth):
        if depth > 6 or not f.get("body"):
            return ("o",)
        J = self.fi(f)
        rs = {self.idx(J, x["e"], depth + 1) for x in fn_nodes(f) if x.get("k") == "Return" and x.get("e") is not None}
        if len(rs) != 1:
            return ("o",)
        r = rs.pop()
        if r[0] == "p":
            a = self.argmap(e, f)
            return self.idx(I, a[r[1]], depth + 1) if r[1] < len(a) and a[r[1]] is not None else ("o",)
        return r if r[0] == "c" else ("o",)

    # ---- calls
    def argmap(self, e, f):
        """argument expressions by parameter number"""
        args = list(e.get("args", ()))
        if e.get("op") and e.get("obj") is None and f.get("cls") and not f.get("smeth"):
            args = args[1:]
        return args + [None] * (len(f["params"]) - len(args))

    def objexpr(self, e, f):
        if not f.get("cls") or f.get("smeth"):
            return None, False
        if e.get("obj") is not None:
            return e["obj"], bool(e.get("arrow")) or is_ptr(e["obj"].get("t"))
        if e.get("op") and e.get("args"):
            return e["args"][0], False
        return None, False

    def subst(self, I, locs, e, f, lam=None, elem=None, seen=frozenset()):
        """locations of callee f's summary in terms of the caller"""
        out = set()
        amap = self.argmap(e, f) if lam is None else None
        for (r, p) in locs:
            p = tuple(("[", self.subidx(I, s[1], amap)) if isinstance(s, tuple) else s for s in p)
            if r[0] == "p":
                if amap is None:
                    if elem is not None and r[1] == 0:
                        out |= self.app(elem, p)
                    else:
                        out.add((("u",), ()))
                    continue
                a = amap[r[1]] if r[1] < len(amap) else None
                if a is None:
                    out.add((("u",), ()))
                    continue
                t = f["params"][r[1]]["t"]
                if is_ptr(t) and not t.endswith("&") or is_shared(t) and not t.endswith("&") or is_view(t):
                    if p and p[0] == "*":
                        out |= self.app(self.ptr(I, a, seen), p[1:], True)
                    elif is_view(t) and p:
                        out |= self.app(self.ptr(I, a, seen), p, True)
                    else:
                        out.add((("f",), ()))
                elif is_ptr(t) and t.endswith("&") and p and p[0] == "*":
                    out |= self.app(self.ptr(I, a, seen), p[1:])
                else:
                    out |= self.app(self.loc(I, a, seen), p)
            elif r[0] == "t":
                if lam is not None or f.get("lambda"):
                    out |= self.app({(("t",), ())}, p)
                    continue
                o, arrow = self.objexpr(e, f)
                if o is None:
                    out |= self.app({(("f",), ())}, p) if e.get("k") == "Construct" else self.app({(("t",), ())}, p)
                else:
                    out |= self.app(self.ptr(I, o, seen) if arrow else self.loc(I, o, seen), p)
            elif r[0] == "v":
                out |= self.expand(I, r[1], p, seen)
            else:
                out.add((r, p))
        return out

    def subidx(self, I, s, amap):
        if s[0] == "p":
            if amap is None or s[1] >= len(amap) or amap[s[1]] is None:
                return ("o",)
            return self.idx(I, amap[s[1]])
        if s[0] == "v":
            if s[1] in I.parm:
                return ("p", I.parm[s[1]]) if s[1] not in I.assigned else ("o",)
            if s[1] in I.own:
                ds = I.defs.get(s[1], ())
                if len(ds) == 1 and ds[0][0] == "v" and s[1] not in I.assigned:
                    return self.idx(I, ds[0][1])
                return ("o",)
        return s

    def app(self, locs, p, ptr=False):
        out = set()
        for l in locs:
            q = p
            # merge a pointer already bumped with a leading index
            if ptr and l[1] and isinstance(l[1][-1], tuple) and q and isinstance(q[0], tuple) and l[0][0] not in ("u", "f") and l[1][-1][1] == ("c", 0):
                l = (l[0], l[1][:-1])
            out |= self.cat({l}, *q) if q else {l}
        return out

    def expand(self, I, i, p, seen=frozenset()):
        """resolve a path rooted at a variable of this function"""
        if i in I.parm:
            return {(("p", I.parm[i]), p)}
        if i in I.bind:
            v, b = I.bind[i]
            base = self.loc(I, b["e"]) if b.get("e") is not None else self.cat(self.varbyid(I, v["id"], seen), b["n"])
            return self.app(base, p)
        v = I.own.get(i)
        if v is None:
            return {(("v", i), p)}
        if v.get("gk"):
            return {(("g", v["gk"]), p)}
        if i in seen:
            return set()
        t = v["t"]
        ds = I.defs.get(i, ())
        if t.endswith("&"):
            out = set()
            for kind, d in ds[:1]:
                out |= self.app(self.defloc(I, kind, d, seen | {i}), p)
            return out
        if (is_ptr(t) or is_shared(t)) and p and p[0] == "*":
            return self.app(self.ptr(I, {"k": "Ref", "id": i, "t": t}, seen), p[1:])
        if is_view(t):
            return self.app(self.ptr(I, {"k": "Ref", "id": i, "t": t}, seen), p) if p else set()
        if "*" in p:
            el = I.elems.get(i)
            if el is not None and len(p) >= 2 and isinstance(p[0], tuple) and p[1] == "*":
                out = set()
                for a in el:
                    out |= self.app(self.ptr(I, a, seen | {i}), p[2:])
                return out
            out = set()
            for kind, d in ds:
                d0 = strip(d)
                if d0 is not None and (d0.get("k") in ("Ref", "Member", "Index", "Un") or d0.get("k") == "Call" and (d0.get("op") or short(d0) in IDENT) or d0.get("k") == "Construct" and d0.get("copy")):
                    out |= self.app(self.defloc(I, kind, d, seen | {i}), p)
                else:
                    out.add((("u",), ()))
            return out
        return set()

    def ret(self, I, e, seen):
        out = set()
        for f in self.P.callees(e):
            out |= self.subst(I, self.retsum(f), e, f, seen=seen)
        return out or {(("u",), ())}

    def retsum(self, f):
        k = f["key"]
        if k in self.rets:
            return self.rets[k]
        if k in self.retbusy:
            return set()
        self.retbusy.add(k)
        I = self.fi(f)
        out = set()
        t = f["ret"]
        if t.endswith(("&", "*")) or is_shared(t) or is_view(t):
            for x in fn_nodes(f):
                if x.get("k") == "Return" and x.get("e") is not None:
                    l = self.loc(I, x["e"]) if t.endswith("&") else self.ptr(I, x["e"])
                    for r, p in l:
                        if r[0] == "v" and r[1] in I.own:
                            out |= self.expand(I, r[1], p)
                        else:
                            out.add((r, p))
        elif f["n"].split("::")[-1] not in ("operator=",):
            out.add((("f",), ()))
        self.retbusy.discard(k)
        self.rets[k] = out
        return out

    # ---- locks (structured, must-hold)
    def vartls(self, I, x):
        if not hasattr(self, "tlsids"):
            self.tlsids = {(f["key"], y["id"]) for f in self.P.fns.values() for y in fn_nodes(f) if y.get("k") == "Var" and y.get("tls")}
        return (I.f["key"], x.get("id")) in self.tlsids if hasattr(I, "f") else False

    def mutexes(self, I, e):
        out = set()
        for x in walk(e):
            if x.get("k") == "Ref" and self.vartls(I, x):
                continue  # every thread has its own: locking it keeps nobody out
            if x.get("k") in ("Ref", "Member") and "mutex" in bare(x.get("t", "")).split("<")[0]:
                for r, p in self.loc(I, x):
                    if r[0] not in ("u", "f"):
                        out.add((r, p))
        return out

    def held(self, f):
        """id(node) -> locks held when the node is evaluated"""
        k = f["key"]
        if k in self.lockcache:
            return self.lockcache[k]
        self.lockcache[k] = ({}, set(), set())
        I = self.fi(f)
        H = {}
        guards = {}
        relall = set()

        def lockcalls(x, cur):
            """effects of one expression on the lock set (in tree order)"""
            for y in walk(x):
                H[id(y)] = frozenset(cur)
                if y.get("k") == "Var" and bare(y.get("t", "")).startswith(("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")) and y.get("init") is not None:
                    ms = self.mutexes(I, y["init"])
                    guards[y["id"]] = ms
                    if not any(w in str(z.get(q, "")) for z in walk(y["init"]) for w in ("defer_lock", "try_to_lock") for q in ("n", "t")):
                        cur |= ms
                        y_scope[-1].append(ms)
                elif y.get("k") == "Var" and "scoped_lock" in bare(y.get("t", "")) and y.get("init") is not None:
                    ms = self.mutexes(I, y["init"])
                    cur |= ms
                    y_scope[-1].append(ms)
                elif y.get("k") == "Call" and short(y) in ("lock", "unlock") and operands(y):
                    o = strip(operands(y)[0])
                    ms = guards.get(o.get("id")) if o.get("k") == "Ref" and o.get("id") in guards else (self.mutexes(I, o) if "mutex" in bare(o.get("t", "")).split("<")[0] else None)
                    if ms:
                        if short(y) == "lock":
                            cur |= ms
                        else:
                            cur -= ms
                            relall.update(ms)
                elif y.get("k") == "Call":
                    for g in self.P.callees(y):
                        if g.get("body") and any(z.get("k") == "Call" and short(z) in ("lock", "unlock") for z in fn_nodes(g)):
                            _, acq, rel = self.held(g)
                            if acq or rel:
                                cur |= self.subst(I, acq, y, g)
                                cur -= self.subst(I, rel, y, g)
        y_scope = [[]]

        def st(s, cur):
            """returns True when the statement does not complete normally"""
            if s is None:
                return False
            k = s.get("k")
            if k == "Compound":
                y_scope.append([])
                dead = False
                for c in s["c"]:
                    if c is None:
                        continue
                    dead = st(c, cur) or dead
                for ms in y_scope.pop():
                    cur -= ms
                return dead
            if k in ("If", "While", "For", "RFor", "Do", "Switch", "Try", "Label", "Case", "Default"):
                y_scope.append([])
                if k == "Do":
                    d = st(s["body"], cur)
                    lockcalls(s["cond"], cur)
                    for ms in y_scope.pop():
                        cur -= ms
                    return False
                for key in ("init", "cvar", "cond", "range", "e"):
                    if isinstance(s.get(key), dict):
                        if s[key].get("k") in ("Decl", "Compound"):
                            st(s[key], cur)
                        else:
                            lockcalls(s[key], cur)
                ends, deadall = [], True
                tried = None
                if k == "If":
                    c, pol = strip(s.get("cond")), True
                    while c is not None and c.get("k") == "Un" and c["op"] == "!":
                        c, pol = strip(c["e"]), not pol
                    if c is not None and c.get("k") == "Call" and operands(c) and short(c) in ("owns_lock", "operator bool", "try_lock"):
                        o = strip(operands(c)[0])
                        ms = guards.get(o.get("id")) if o.get("k") == "Ref" and o.get("id") in guards else (self.mutexes(I, o) if "mutex" in bare(o.get("t", "")).split("<")[0] else None)
                        if ms:
                            tried = (pol, ms)
                for key in ("then", "else", "body", "sub"):
                    if isinstance(s.get(key), dict):
                        c2 = set(cur)
                        if k == "If" and tried and (key == "then") == tried[0]:
                            c2 |= tried[1]
                        d = st(s[key], c2)
                        if not d:
                            ends.append(c2)
                if k == "For" and s.get("inc"):
                    lockcalls(s["inc"], set(cur))
                if k == "Try":
                    for h in s.get("h", ()):
                        st(h.get("body"), set(cur))
                if k in ("Label", "Case", "Default"):
                    if ends:
                        cur.clear()
                        cur |= ends[0]
                    y_scope.pop()
                    return not ends
                if k == "Try" and ends:
                    base = ends[0]
                    cur &= base
                    cur |= base
                elif k == "If" and not s.get("else"):
                    for x in ends:
                        cur &= x
                    if tried and not tried[0] and not ends:
                        cur |= tried[1]
                elif k == "If":
                    if ends:
                        r = set.intersection(*ends)
                        cur.clear()
                        cur |= r
                else:
                    for x in ends:
                        cur &= x
                for ms in y_scope.pop():
                    cur -= ms
                return k == "If" and bool(s.get("else")) and not ends
            if k in ("Return", "Break", "Continue", "Goto"):
                if s.get("e") is not None:
                    lockcalls(s["e"], cur)
                return True
            if k == "Decl":
                for c in s["c"]:
                    lockcalls(c, cur)
                return False
            lockcalls(s, cur)
            return False
        cur = set()
        if f.get("body"):
            st(f["body"], cur)
        self.lockcache[k] = (H, frozenset(cur), frozenset(relall))
        return self.lockcache[k]

    # ---- write summaries
    def lambdas(self, I, e, depth=0):
        """lambda bodies an argument expression may denote"""
        e = strip(e)
        out = []
        if e is None or depth > 4:
            return out
        if e.get("k") == "Lambda":
            return [self.P.fns[k] for k in (e.get("fns") or [e["fn"]]) if k in self.P.fns]
        if e.get("k") == "Ref":
            if e.get("dk") == "func" and e.get("fn") in self.P.fns:
                return [self.P.fns[e["fn"]]]
            for kind, d in I.defs.get(e.get("id"), ()):
                out += self.lambdas(I, d, depth + 1)
        elif e.get("k") in ("Construct", "Init", "Un", "Call"):
            for x in e.get("args", ()) or e.get("c", ()) or ([e["e"]] if e.get("e") else ()):
                if x is not None:
                    out += self.lambdas(I, x, depth + 1)
        return out

    def direct(self, f):
        """[(target locations, node, kind)] writes made by the statements of f itself"""
        I = self.fi(f)
        out = []
        for x in fn_nodes(f):
            k = x.get("k")
            t = None
            if k == "Bin" and x["op"] in effects.ASG:
                t = x["a"]
            elif k == "Un" and x["op"] in ("++", "--", "p++", "p--"):
                t = x["e"]
            elif k == "Call" and not self.P.callees(x):
                op = x.get("op")
                o = operands(x)
                if self.moves and x.get("n") == "std::move" and len(o) == 1 and not o[0].get("t", "").startswith("const "):
                    out.append((self.loc(I, o[0]), x, "plain", o[0].get("t", "")))  # leaves the source empty
                    continue
                if op in effects.ASG or op in ("++", "--"):
                    t = o[0] if o else None
                    if op in ("<<=", ">>=") and False:
                        t = None
                elif x.get("m") == 1 and op == "[]" and o and is_map(o[0].get("t")):
                    t = o[0]  # may insert
                elif x.get("m") == 1 and o and short(x) not in ACCESS and op not in ("*", "->", "()", "<<", ">>", "[]"):
                    t = o[0]
                elif short(x) in ALGO_W and x.get("n", "").startswith(("std::", "mem")) and not x.get("obj"):
                    args = x.get("args", ())
                    which = args[:1]
                    if short(x) in ("copy", "copy_n"):
                        which = args[2:3]
                    elif short(x) == "transform":
                        which = args[-2:-1]
                    elif short(x) == "swap":
                        which = args[:2]
                    for a in which:
                        at = a.get("t", "")
                        l = self.ptr(I, a) if is_ptr(at) or is_view(at) or strip(a).get("k") == "Un" and strip(a)["op"] == "&" else self.loc(I, a)
                        out.append((l, x, "plain", at))
                    continue
                else:
                    for j, a in enumerate(x.get("args", ())):
                        mp = x.get("mp", ())
                        if op and x.get("m") and j == 0:
                            continue
                        jj = j - 1 if op and x.get("m") else j
                        if 0 <= jj < len(mp) and mp[jj] == 1 and strip(a).get("k") in ("Ref", "Member", "Index") and not safe_type(a.get("t")) and not x.get("n", "").startswith(("std::forward", "std::move", "std::get", "std::begin", "std::end", "std::data", "std::size", "std::addressof", "std::ref", "std::apply", "std::visit", "tbb::", "std::unique_lock", "std::make")):
                            out.append((self.loc(I, a), x, "plain", a.get("t", "")))
            if t is None:
                continue
            tt = t.get("t", "")
            s = strip(t)
            if safe_type(tt) or safe_type(s.get("t")):
                continue
            kind = "plain"
            if k == "Bin" and x["op"] == "=" and bare(s.get("t")) == "bool":
                v = strip(x["b"])
                if v.get("k") == "Int":
                    kind = "sticky%d" % v["v"]
            # any step of the path that is a concurrent container makes the insertion safe
            out.append((self.loc(I, t), x, kind, tt))
        return out

    def fix(self):
        """global fixpoint over recursive functions"""
        while True:
            n0 = {k: len(s) for k, s in self.sum.items()}
            self.done = set()
            for k in list(self.sum):
                self.summary(self.P.fns[k])
            if {k: len(s) for k, s in self.sum.items()} == n0:
                return

    def direct_reads(self, f):
        I = self.fi(f)
        out = []
        inner = set()
        for x in fn_nodes(f):
            k = x.get("k")
            if id(x) in inner:
                pass
            acc = k in ("Ref", "Member", "Index") or k == "Call" and x.get("op") in ("[]", "*", "->")
            if acc:
                for z in ([x["base"]] if x.get("base") is not None else operands(x)[:1] if k == "Call" else ()):
                    inner.add(id(z))
                    inner.add(id(strip(z)))
                    z = strip(z)
            elif k == "Bin" and x["op"] == "=":
                inner.add(id(x["a"]))
                inner.add(id(strip(x["a"])))
                continue
            elif k == "Call" and x.get("op") == "=" and operands(x):
                inner.add(id(operands(x)[0]))
                inner.add(id(strip(operands(x)[0])))
                continue
            elif k == "Un" and x["op"] in ("&",):
                inner.add(id(x["e"]))
                inner.add(id(strip(x["e"])))
                continue
            elif k == "Cast":
                if id(x) in inner:
                    inner.add(id(x["e"]))
                continue
            elif k == "Var" and x.get("t", "").endswith("&") and x.get("init") is not None:
                inner.add(id(x["init"]))
                inner.add(id(strip(x["init"])))
                continue
            if not acc or id(x) in inner or safe_type(x.get("t")):
                continue
            if k == "Ref" and (x.get("dk") in ("enum", "func") or not x.get("gk") and not x.get("cap")):
                continue
            out.append((self.loc(I, x), x, "read", x.get("t", "")))
        return out

    def summary(self, f):
        k = f["key"]
        if k in self.done and k not in self.busy:
            return self.sum[k]
        self.done.add(k)
        if k in self.busy:
            return self.sum.get(k, {})
        self.busy.add(k)
        S = self.sum.setdefault(k, {})
        I = self.fi(f)
        H = self.held(f)[0]
        for rnd in range(4):
            n0 = len(S)
            for locs, x, kind, tt in (self._direct(f)):
                self.add(S, I, locs, x, kind, H.get(id(x), frozenset()), "%s:%d" % (f["f"], x.get("l", f["l"])))
            for x in fn_nodes(f):
                kk = x.get("k")
                if kk in ("Call", "Construct", "New"):
                    if x.get("nr"):
                        continue
                    par = is_par(x)
                    if not par:
                        for g in (self.P.callees(x) if kk == "Call" else ([self.P.fns[x["fn"]]] if x.get("fn") in self.P.fns else ())):
                            if self.skip(g):
                                continue
                            self.merge(S, I, x, g, H)
                    elem = None
                    if kk == "Call" and short(x) == "parallel_for_each" and x.get("args"):
                        elem = self.cat(self.loc(I, x["args"][0]), ("[", ("o",)))
                    for a in x.get("args", ()):
                        for g in self.lambdas(I, a):
                            if not self.skip(g):
                                self.merge(S, I, x, g, H, lam=True, elem=elem)
            if len(S) == n0:
                break
        self.busy.discard(k)
        return S

    def _direct(self, f):
        if not hasattr(self, "_dc"):
            self._dc = {}
        k = f["key"]
        if k not in self._dc:
            self._dc[k] = self.direct(f) + (self.direct_reads(f) if self.reads else [])
        return self._dc[k]

    def merge(self, S, I, x, g, H, lam=None, elem=None):
        T = self.summary(g)
        h = H.get(id(x), frozenset())
        for key, (site, locks, kind) in list(T.items()):
            r, p = key[-2:]
            lk = frozenset(self.subst(I, locks, x, g, lam=lam, elem=elem)) | h if locks else h
            self.add(S, I, self.subst(I, [(r, p)], x, g, lam=lam, elem=elem), x, kind, lk, site)

    def add(self, S, I, locs, x, kind, locks, site):
        if locks:
            lk = set()
            for r, p in locks:
                # a lock object that is a plain local excludes nobody
                if not (r[0] == "v" and r[1] in I.own and not I.own[r[1]]["t"].endswith("&")) and r[0] not in ("u", "f"):
                    lk.add((r, p))
            locks = frozenset(lk)
        for r, p in locs:
            if r[0] in ("u", "f"):
                continue
            if r[0] == "p":
                t = I.ptype[r[1]]
                if not t.endswith("&") and "*" not in p and not (is_view(t) and p):
                    continue
            if r[0] == "v" and r[1] in I.own:
                for l in self.expand(I, r[1], p):
                    if l[0][0] not in ("u", "f") and not (l[0][0] == "v" and (l[0][1] in I.own or not I.f.get("lambda"))):
                        self.put(S, l, site, locks, kind)
                continue
            if r[0] == "v" and not I.f.get("lambda"):
                continue
            self.put(S, (r, p), site, locks, kind)

    def put(self, S, l, site, locks, kind):
        if kind == "read":
            l = ("R",) + l
        o = S.get(l)
        if o is None:
            if len(S) < 4000:
                S[l] = (site, locks, kind)
        else:
            lk = o[1] & locks
            if lk != o[1] or o[2] != kind and o[2] != "plain":
                S[l] = (site if not locks else o[0], lk, o[2] if o[2] == kind else "plain")
