"""C28: a reference, pointer or iterator into a list is not used after the list may have moved or dropped its elements."""
import re
import cfg, loops, model
from flow import operands, short
from absint import deep
from model import AnalysisBroken, fn_nodes, strip, walk
from sym import isptr, callargs, QUIET

RULE = ("For every function, a dataflow over its control-flow graph follows each reference, pointer and iterator that designates an element of a list "
        "(vector, string, winding, hash table, linked list), from the expression it was taken from, through copies, ranges and loops. An operation that may move or destroy "
        "elements of that list (growing, resizing, erasing, clearing, assigning), made directly or by any function called (interprocedural summaries over "
        "access paths), ends its validity: a later use on any path is reported. Functions that return references into a list, and reference parameters used after the "
        "callee lets their list grow, are followed through the calls. A view, pointer or iterator is never bound into a list that ends with the statement, nor returned from the function that owns the list.")

GROW = ("push_back", "emplace_back", "resize", "reserve", "insert", "emplace", "shrink_to_fit", "append", "assign", "clear", "erase", "pop_back", "push_front", "emplace_front", "pop_front", "remove_if", "remove", "operator[]", "try_emplace", "operator+=", "operator=", "splice", "merge", "unique", "swap")
DROPS = ("clear", "assign", "operator=", "erase", "pop_back", "resize", "pop_front", "remove_if", "remove", "unique")
ELEMS = ("at", "front", "back", "data", "begin", "end", "rbegin", "rend", "cbegin", "cend", "c_str", "operator[]", "find", "lower_bound", "upper_bound")
THROUGH = ("find", "find_if", "find_if_not", "lower_bound", "upper_bound", "remove_if", "remove", "max_element", "min_element", "begin", "end", "next", "prev", "partition", "unique", "move", "forward", "as_const", "data", "cbegin", "cend", "rbegin", "rend", "adjacent_find", "search", "addressof", "ref", "cref")


def kind(t):
    """how a container's elements move: 'vec' all when it grows, 'hash' iterators only, 'node' never; None: not a container"""
    t = re.sub(r"\b(const|volatile)\b", "", t or "").replace("&", "").strip()
    if t.endswith("*"):
        return None
    if re.match(r"(std::)?(vector|basic_string|string|deque)\b", t) and "::" not in t.split("<")[0].replace("std::", "") and not re.search(r">::\w*$", t):
        return "vec"
    if re.match(r"polylib::winding(_base)?_t\b", t) or t == "polylib::winding_t":
        return "vec"
    if re.match(r"std::unordered_(multi)?(map|set)<", t) and not re.search(r">::\w*$", t):
        return "hash"
    if re.match(r"std::((multi)?(map|set)|list)<", t) and not re.search(r">::\w*$", t):
        return "node"
    return None


def ctype(e):
    """the type of the object a method is called on"""
    return re.sub(r"[\s*]+(const)?$", "", deep(e).get("t", "")) if isptr(deep(e).get("t", "")) else deep(e).get("t", "")


def isref(t):
    return t.strip().endswith("&")


def isit(t):
    return "terator" in t and "ostream" not in t and "back_insert" not in t


def refers(t):
    return isref(t) or isptr(t) or isit(t) or "basic_string_view" in t or "span<" in t


def calls_of(P, e):
    """[(function, arguments)] a call may reach, overriders included"""
    out = []
    for g in P.callees(e) if e.get("k") == "Call" else ():
        c = callargs(P, dict(e, fn=g["key"]))
        if c is not None:
            out.append((g["key"], c))
    return out


def bare(i):
    """a variable's own number, without the frame it was renamed for"""
    if isinstance(i, str) and re.match(r"\d+\.", i):
        i = i.split(".", 1)[1]
        return int(i) if i.isdigit() else i
    return i


class Fn:
    """names of places in one function"""

    def __init__(self, A, f, nodes):
        self.A, self.f = A, f
        self.P = A.P
        self.par = {p["id"]: i for i, p in enumerate(f["params"])}
        self.ptypes = {p["id"]: p["t"] for p in f["params"]}
        self.init, self.assigned, self.type = {}, {}, dict(self.ptypes)
        for e in nodes:
            k = e.get("k")
            if k == "Var":
                self.type[e["id"]] = e["t"]
                if e.get("init") is not None:
                    self.init[e["id"]] = e["init"]
            elif k == "RFor":
                self.type[e["var"]["id"]] = e["var"]["t"]
                self.init[e["var"]["id"]] = {"k": "Index", "base": e["range"], "rng": True, "t": e["var"]["t"]}

    def names(self, e, depth=0):
        """places of the object an lvalue expression denotes: {(root, steps)}"""
        e = deep(e)
        if e is None or depth > 10:
            return set()
        k = e.get("k")
        if k == "Ref":
            i = bare(e.get("id"))
            if i is None or e.get("dk") == "global" or e.get("gk"):
                return {("g:" + e["n"].split("::")[-1], ())} if e.get("n") else set()
            out = {("v:%s" % i, ())}
            if i in self.par:
                out = {(self.par[i], ())}
            t = self.type.get(i, "")
            if isref(t) and i in self.init:
                out |= self.names(self.init[i], depth + 1)
            return out
        if k == "This":
            return {("this", ())}
        if k == "Member":
            if e.get("anon"):
                return self.names(e["base"], depth)
            if e.get("base") is None:
                return {("this", ("." + e["f"],))}
            b = self.target(e["base"], depth + 1) if isptr(deep(e["base"]).get("t", "")) else self.names(e["base"], depth + 1)
            return {(r, s + ("." + e["f"],)) for r, s in b}
        if k == "Index":
            return {(r, s + ("[%s]" % self.ix(e.get("idx") or e.get("i")),)) for r, s in self.names(e["base"], depth + 1)}
        if k == "Un":
            if e["op"] == "*":
                return self.target(e["e"], depth + 1)
            return self.names(e["e"], depth + 1) if e["op"] not in ("&",) else set()
        if k == "Cond":
            return set().union(*[self.names(e[z], depth + 1) for z in ("a", "b") if e.get(z) is not None])
        if k == "Call":
            o, s = operands(e), short(e)
            if not o:
                return self.returned(e, depth)
            if e.get("op") in ("*", "->") and len(o) == 1:
                return self.target(o[0], depth + 1)
            if e.get("op") == "[]" or s in ("at", "front", "back"):
                if kind(ctype(o[0])) or s in ("at", "front", "back") or "array<" in ctype(o[0]):
                    return {(r, q + ("[%s]" % (self.ix(o[1]) if len(o) > 1 else s),)) for r, q in self.place(o[0], depth + 1)}
            if s in ("value", "get", "move", "forward", "as_const") and len(o) >= 1:
                return self.names(o[-1] if e.get("obj") is None else o[0], depth + 1)
            return self.returned(e, depth)
        return set()

    def place(self, e, depth=0):
        """the list a method is called on, through a pointer or not"""
        e = deep(e)
        return self.target(e, depth) if isptr(e.get("t", "")) else self.names(e, depth)

    def target(self, e, depth):
        """the object a pointer expression points to"""
        e = deep(e)
        if e is None or depth > 10:
            return set()
        k = e.get("k")
        if k == "Un" and e["op"] == "&":
            return self.names(e["e"], depth + 1)
        if k == "This":
            return {("this", ())}
        if k == "Ref" and e.get("id") is not None and e.get("dk") != "global":
            i = bare(e["id"])
            out = {("v:%s" % i, ("*",))}
            if i in self.par:
                out = {(self.par[i], ())}
            if i in self.init and i not in self.A.reassigned(self.f):
                out |= self.target(self.init[i], depth + 1)
            return out
        if k == "Call" and short(e) in ("get", "operator->", "operator*", "data", "begin") and operands(e):
            return {(r, s + ("*",)) for r, s in self.names(operands(e)[0], depth + 1)}
        if k == "Call":
            return self.returned(e, depth)
        return {(r, s + ("*",)) for r, s in self.names(e, depth + 1)}

    def returned(self, e, depth):
        return set()

    def ix(self, e):
        e = deep(e) if e is not None else None
        if e is None:
            return "?"
        v = cfg.cval(e)
        if type(v) is int:
            return str(v)
        k = e.get("k")
        if k == "Ref":
            return "v%s" % (bare(e.get("id")) or e.get("n"))
        if k == "Member" and e.get("base") is not None:
            return self.ix(e["base"]) + "." + e["f"]
        if k == "Cast":
            return self.ix(e["e"])
        return "?%s" % id(e)

    # ---- elements
    def holders(self, e, depth=0):
        """[(container places, kind, is the expression an iterator, 'var' id)] of the lists that hold the storage an lvalue lies in"""
        e = deep(e)
        if e is None or depth > 12:
            return []
        k = e.get("k")
        if k == "Ref":
            i = bare(e.get("id"))
            t = self.type.get(i, "")
            if i is not None and isref(t):
                return [("var", i)]
            return []
        if k == "Member":
            if e.get("base") is None:
                return [("var", "this")]
            b = deep(e["base"])
            return self.pointers(b, depth + 1) if isptr(b.get("t", "")) else self.holders(b, depth + 1)
        if k == "This":
            return []
        if k == "Index":
            b = deep(e["base"])
            if isptr(b.get("t", "")):
                return self.pointers(b, depth + 1)
            if e.get("rng"):
                return self.element(b, depth)
            return self.holders(b, depth + 1)
        if k == "Un":
            if e["op"] == "*":
                return self.pointers(e["e"], depth + 1)
            if e["op"] in ("++", "--"):
                return self.holders(e["e"], depth + 1)
            return []
        if k == "Cond":
            return [x for z in ("a", "b") if e.get(z) is not None for x in self.holders(e[z], depth + 1)]
        if k == "Bin" and e["op"] in ("=", "+=", "-="):
            return self.holders(e["a"], depth + 1)
        if k == "Call":
            o, s = operands(e), short(e)
            if e.get("op") in ("*", "->") and len(o) == 1:
                return self.pointers(o[0], depth + 1)
            if o and (e.get("op") == "[]" or s in ("at", "front", "back", "emplace_back", "operator[]")):
                hs = self.element(o[0], depth)
                if s in ("front", "back") and hs and hs[0][2] == "node":
                    hs = [(hs[0][0], hs[0][1], "node " + s)] + hs[1:]
                return hs
            if s in ("value", "move", "forward", "as_const") and o and (e.get("obj") is None or s == "value"):
                return self.holders(o[0], depth + 1)
            if s == "get" and e.get("obj") is None and o:
                return self.holders(o[-1], depth + 1)
            return self.fromcall(e, depth)
        return []

    def element(self, c, depth):
        c = deep(c)
        if c is None:
            return []
        t = ctype(c)
        k = kind(t)
        outer = lambda: self.pointers(c, depth + 1) if isptr(c.get("t", "")) else self.holders(c, depth + 1)
        if k is None:
            if "array<" in t or "[" in t:
                return outer()
            return []
        if re.match(r"(const )?(std::)?(basic_)?string\b|(const )?polylib::", t):
            return [("in", frozenset(self.place(c)), k)] + outer()  # their elements may lie inside them and move along
        return [("in", frozenset(self.place(c)), k)] + [("in", h[1], "drop") if h[0] == "in" else ("var", h[1], "drop") for h in outer()]

    def pointers(self, e, depth=0):
        """the lists a pointer or iterator expression points into"""
        e = deep(e)
        if e is None or depth > 12:
            return []
        k = e.get("k")
        if k == "Ref":
            i = bare(e.get("id"))
            if i is not None and e.get("dk") != "global" and refers(self.type.get(i, "")):
                return [("var", i)]
            return []
        if k == "Un":
            if e["op"] == "&":
                return self.holders(e["e"], depth + 1)
            if e["op"] in ("++", "--", "p++", "p--"):
                return self.pointers(e["e"], depth + 1)
            return []
        if k == "Bin" and e["op"] in ("+", "-", "=", "+=", "-="):
            return self.pointers(e["a"], depth + 1)
        if k == "Cond":
            return [x for z in ("a", "b") if e.get(z) is not None for x in self.pointers(e[z], depth + 1)]
        if k in ("Construct", "Init") and (e.get("args") or e.get("c")) and (isit(e.get("t", "")) or isit(e.get("cls", "") or "") or "string_view" in e.get("t", "")):
            return self.pointers((e.get("args") or e.get("c"))[0], depth + 1)
        if k == "Call":
            o, s = operands(e), short(e)
            if o and e.get("op") in ("++", "--", "+", "-", "+=", "-=", "=", "->"):
                return self.pointers(o[0], depth + 1)
            if o and e.get("obj") is not None and kind(ctype(o[0])) and s in ELEMS + ("insert", "erase", "emplace") or s == "operator basic_string_view" and o:
                it = [(h[0], h[1], "it" + h[2]) if h[0] == "in" and h[2] in ("hash", "node") else h for h in self.element(o[0], depth)[:1]]
                return it + self.element(o[0], depth)[1:]
            if o and e.get("obj") is None and s in THROUGH and not e.get("m") and (e.get("fn") not in self.P.fns or self.P.fns[e["fn"]]["n"].startswith("std::")):
                if kind(deep(o[0]).get("t", "")) and s in ("begin", "end", "data", "cbegin", "cend", "rbegin", "rend"):
                    return self.element(o[0], depth)
                if s in ("addressof", "ref", "cref"):
                    return self.holders(o[0], depth + 1)
                return self.pointers(o[0], depth + 1)
            if s == "base" and o:
                return self.pointers(o[0], depth + 1)
            return self.fromcall(e, depth) if refers(e.get("t", "")) else []
        return []

    def fromcall(self, e, depth):
        r = self.A.returns(e.get("fn"))
        if not r:
            return []
        c = callargs(self.P, e)
        if c is None:
            return []
        out = []
        for root, steps, kd in r:
            ns = self.A.translate(self, c, root, steps)
            if ns:
                out.append(("in", frozenset(ns), kd))
        return out


class All:
    def __init__(self, P):
        self.P = P
        self._re, self._ret, self._grow, self._fn, self._fl = {}, {}, None, {}, {}
        self.busy = set()

    def fn(self, f):
        if f["key"] not in self._fn:
            self._fn[f["key"]] = Fn(self, f, list(fn_nodes(f)))
        return self._fn[f["key"]]

    def reassigned(self, f):
        if f["key"] not in self._re:
            s = set()
            for e in fn_nodes(f):
                if e.get("k") == "Bin" and e["op"] == "=" and deep(e["a"]).get("k") == "Ref":
                    s.add(deep(e["a"]).get("id"))
                elif e.get("k") == "Un" and ("++" in e["op"] or "--" in e["op"]) and deep(e["e"]).get("k") == "Ref":
                    s.add(deep(e["e"]).get("id"))
            self._re[f["key"]] = s
        return self._re[f["key"]]

    def returns(self, fn):
        """lists a function's result lies in: [(root, steps, kind)] with parameters by number"""
        if fn in self._ret:
            return self._ret[fn]
        self._ret[fn] = []
        f = self.P.fns.get(fn)
        if f is None or f["n"].startswith(QUIET) or not f.get("body"):
            return []
        rt = f.get("rt") or f.get("ret") or ""
        F = self.fn(f)
        out = set()
        for e in fn_nodes(f):
            if e.get("k") == "Return" and e.get("e") is not None:
                x = deep(e["e"])
                t = x.get("t", "")
                hs = F.pointers(x) if isptr(t) or isit(t) else F.holders(x) if isref(rt) else []
                for h in self.close(F, hs):
                    if h[0] == "in" and h[2] != "drop":
                        for r, s in h[1]:
                            if type(r) is int or r == "this" or r.startswith("g:"):
                                out.add((r, tuple("[*]" if z[0] == "[" and not z[1:-1].isdigit() else z for z in s), h[2]))
        self._ret[fn] = sorted(out, key=str)
        return self._ret[fn]

    def close(self, F, hs, depth=0):
        """variables replaced by what they were bound to"""
        out = []
        for h in hs:
            if h[0] == "var" and h[1] in F.init and depth < 5:
                i = h[1]
                t = F.type.get(i, "")
                g = F.holders(F.init[i]) if isref(t) else F.pointers(F.init[i])
                out += [(z[0], z[1], "drop") if len(h) > 2 and z[0] == "in" else z for z in self.close(F, g, depth + 1)]
            else:
                out.append(h)
        return out

    def translate(self, F, c, root, steps):
        """places in the caller of a callee's place"""
        g, ob, pa = c
        if type(root) is int:
            if root >= len(pa):
                return set()
            a = deep(pa[root][1])
            b = F.target(a, 0) if isptr(pa[root][0]["t"]) else F.names(a)
        elif root == "this":
            if ob is None:
                b = {("this", ())}
            else:
                o = deep(ob)
                b = F.target(o, 0) if isptr(o.get("t", "")) else F.names(o)
        else:
            b = {(root, ())}
        return {(r, s + steps) for r, s in b}

    def flow(self, fn):
        """the function's dataflow, or None when it binds or changes nothing"""
        if fn in self._fl:
            return self._fl[fn]
        self._fl[fn] = None
        f = self.P.fns.get(fn)
        if f is None or not f.get("body") or f["n"].startswith(QUIET):
            return None
        F, G, P = self.fn(f), self.growth(), self.P
        nodes = list(fn_nodes(f))
        if not any(e.get("k") == "Call" and (self.grown(F, e) or any(G.get(g["key"]) for g in P.callees(e))) for e in nodes):
            return None
        self._fl[fn] = Flow(self, f, self.report)
        return self._fl[fn]

    def needs(self, fn):
        fl = self.flow(fn)
        return fl.needs if fl is not None else ()

    def grown(self, F, e):
        """[(places, operation, element erased or None)] of the lists a node itself changes"""
        k = e.get("k")
        if k == "Call" and operands(e):
            o, s = operands(e), short(e)
            c = deep(o[0])
            t = ctype(c)
            kd = kind(t)
            if kd is None or e.get("obj") is None and isptr(c.get("t", "")):
                return []
            op = "operator=" if e.get("op") == "=" else "operator+=" if e.get("op") == "+=" else "operator[]" if e.get("op") == "[]" else s
            if op not in GROW or (e.get("obj") is None and not e.get("op")):
                return []
            if op == "operator[]" and not (kd != "vec" and "map<" in t):
                return []
            if kd == "vec" and op == "operator[]":
                return []
            return [(frozenset(F.place(c)), op, kd, o[1] if op == "erase" and len(o) > 1 else None)]
        return []

    def growth(self):
        """function -> {(root, steps, op, kind)}: lists it or its callees may change"""
        if self._grow is not None:
            return self._grow
        P = self.P
        direct, calls = {}, {}
        for fn, f in P.fns.items():
            if f["n"].startswith(QUIET) or not f.get("body"):
                continue
            F = self.fn(f)
            d, cs = set(), []
            for e in fn_nodes(f):
                if e.get("k") == "Call":
                    for ns, op, kd, el in self.grown(F, e):
                        for r, s in ns:
                            if type(r) is int or r == "this" or r.startswith("g:"):
                                d.add((r, s, op, kd))
                    for g, c in calls_of(P, e):
                        cs.append((g, c))
            direct[fn], calls[fn] = d, cs
        rev = {}
        for fn, cs in calls.items():
            for g, c in cs:
                rev.setdefault(g, set()).add(fn)
        work = [fn for fn in direct if direct[fn]]
        while work:
            g = work.pop()
            for fn in rev.get(g, ()):
                F = self.fn(P.fns[fn])
                n0 = len(direct[fn])
                for g2, c in calls[fn]:
                    if g2 != g:
                        continue
                    for r, s, op, kd in list(direct[g]):
                        for r2, s2 in self.translate(F, c, r, s):
                            if (type(r2) is int or r2 == "this" or r2.startswith("g:")) and len(s2) < 7:
                                direct[fn].add((r2, tuple(z if z[0] != "[" or z[1:-1].isdigit() else "[*]" for z in s2), op, kd))
                if len(direct[fn]) != n0:
                    work.append(fn)
        self._grow = direct
        return direct


def same(a, b):
    """is it the same list, whichever element of an outer list it belongs to being equal"""
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    return all(x == y and not x.startswith("[?") and x != "[*]" for x, y in zip(a[1], b[1]))


def ends(h, ns, op, kd):
    """does the change of a list end the validity of something held in it?"""
    if not any(same(a, b) for a in h[1] for b in ns):
        return False
    hk = h[2]
    if hk == "drop":
        return op in ("clear", "operator=", "assign")
    if hk == "vec":
        return True
    if hk == "hash":
        return op in ("clear", "operator=", "assign")
    if hk == "ithash":
        return op not in ("erase", "remove", "pop_back")
    if hk in ("node front", "node back") and op == "pop_" + hk[5:]:
        return True
    if hk in ("itnode", "node", "node front", "node back"):
        return op in ("clear", "operator=", "assign")
    return False


class Flow:
    """union dataflow of one function. Facts: ("L", variable, list) valid, ("S", variable, change) no longer valid,
    ("Q", parameter, change) the list a parameter may lie in has changed"""

    def __init__(self, A, f, report):
        self.A, self.f, self.F = A, f, A.fn(f)
        self.P = A.P
        self.report = report
        self.needs = set()  # (parameter, root, steps, op, kind, where)
        self.B = B = cfg.Builder(self.P, inline=lambda fn, c, d: False, max_depth=2).build(f)
        self.own = {id(n.ast) for n in B.nodes if n.kind == "ev" and n.ast is not None}
        self.changes = {}
        self.sites = self.bound = 0
        for n in B.nodes:
            for e in ([n.ast] if n.ast is not None else []):
                if e.get("k") in ("Var", "RVar", "LParam") and e.get("id") is not None:
                    self.F.type.setdefault(bare(e["id"]), e.get("t", ""))
        self.params = [(p["id"], i) for i, p in enumerate(f["params"]) if refers(p["t"])]
        self.bodies = {n.i: loops.body(B, n.i) for n in B.nodes if n.kind == "loop" and n.extra and n.extra[0] == "rfor"}
        self.pred = {}
        for n in B.nodes:
            for t, l in n.succ:
                self.pred.setdefault(t, []).append((n.i, l))
            if n.exc is not None:
                self.pred.setdefault(n.exc, []).append((n.i, "exc"))
        self.solve()

    # ------------------------------------------------------------------
    def mine(self, e):
        """the expression without the parts that are evaluated as steps of their own"""
        st = [e]
        while st:
            x = st.pop()
            yield x
            for y in model.kids(x):
                if id(y) not in self.own or y is e:
                    st.append(y)

    def uses(self, e):
        k = e.get("k")
        skip = None
        if k == "Bin" and e["op"] == "=" or k == "Call" and e.get("op") == "=":
            a = deep(e["a"] if k == "Bin" else operands(e)[0])
            if a.get("k") == "Ref" and not isref(self.F.type.get(bare(a.get("id")), "")):
                skip = a
        for x in self.mine(e):
            if x is skip:
                continue
            if x.get("k") == "Ref" and x.get("id") is not None:
                yield bare(x["id"])
            elif x.get("k") == "This" or x.get("k") == "Member" and x.get("base") is None:
                yield "this"

    def rename(self, e):
        return e

    def bind(self, st, i, hs):
        st = {x for x in st if x[1] != i}
        for h in hs:
            st |= self.held(st, i, h)
        return st

    def held(self, st, i, h):
        if h[0] == "in":
            return {("L", i, h)}
        j = bare(h[1])
        out = set()
        for x in st:
            if x[1] == j:
                if x[0] == "L":
                    g = x[2]
                    if g[0] == "par":
                        if len(h) <= 2:
                            out.add(("L", i, g))
                        continue
                    out.add(("L", i, (g[0], g[1], "drop" if len(h) > 2 else g[2])))
                elif len(h) <= 2:
                    out.add((x[0], i, x[2]))
        if j in dict(self.params) and len(h) <= 2:
            out.add(("L", i, ("par", j)))
        return out

    def changed(self, n):
        """[(places, op, kind, element erased, what)] the node changes"""
        if n.i in self.changes:
            return self.changes[n.i]
        e, out = n.ast, []
        if e is not None and e.get("k") == "Call":
            for ns, op, kd, el in self.A.grown(self.F, e):
                out.append((ns, op, kd, el, short(e) + "()"))
            for g, c in calls_of(self.P, e):
                by = {}
                for r, s, op, kd in self.A.growth().get(g, ()):
                    ns = self.A.translate(self.F, c, r, s)
                    if ns:
                        by.setdefault((op, kd), set()).update(ns)
                for (op, kd), ns in by.items():
                    out.append((frozenset(ns), op, kd, None, c[0]["n"].split("::")[-1] + "()"))
        self.changes[n.i] = out
        return out

    def transfer(self, n, st):
        e = n.ast
        st = set(st)
        if n.kind == "loop" and n.i in self.bodies:
            h = ("rf", n.i)
            for x in list(st):
                if x[0] == "S" and x[1] == h:
                    self.report(self, "range", n, x[2])
            st = {x for x in st if x[1] != h}
            for y in self.F.element(deep(n.extra[2]), 0):
                y = (y[0], y[1], "it" + y[2]) if y[0] == "in" and y[2] in ("hash", "node") else y
                st |= self.held(st, h, y) if y[0] == "in" or True else set()
            return st
        if n.kind in ("br", "switch") and e is not None and id(e) not in self.own:
            self.check(n, e, st)
        if n.kind != "ev" or e is None:
            return st
        k = e.get("k")
        if k == "RVar":
            i = bare(e["id"])
            h = next((x for x in loops.loops_of(self.B, n.i)), None)
            ex = self.B.nodes[h].extra if h is not None else None
            rng = ex[2] if ex and ex[0] == "rfor" else None
            hs = self.F.element(deep(rng), 0) if rng is not None and isref(e["t"]) else []
            return self.bind(st, i, hs)
        self.check(n, e, st)
        if k == "Call":
            self.passes(n, e, st)
            for ns, op, kd, el, what in self.changed(n):
                gone = set()
                erased = {bare(h[1]) for h in self.F.pointers(el) if h[0] == "var"} if el is not None and refers(deep(el).get("t", "")) else set()
                for x in st:
                    if x[0] == "L" and x[2][0] == "in" and ends(x[2], ns, op, kd):
                        gone.add(x)
                    elif x[0] == "L" and op == "erase" and x[1] in erased and kd != "vec":
                        gone.add(x)
                if erased and kd != "vec":  # and what was taken from them
                    for v, i0 in self.F.init.items():
                        g = self.F.holders(i0) if isref(self.F.type.get(v, "")) else self.F.pointers(i0) if refers(self.F.type.get(v, "")) else ()
                        if any(h[0] == "var" and bare(h[1]) in erased for h in g):
                            erased = erased | {v}
                    for i in erased:
                        for y in [y for y in st if y[0] == "L" and y[1] == i]:
                            gone.add(y)
                for x in gone:
                    st.discard(x)
                    st.add(("S", x[1], n.i))
                # the lists of the callers
                pl = frozenset((r, s) for r, s in ns if (type(r) is int or r == "this" or r.startswith("g:")))
                if pl:
                    for pid, i in self.params + [("this", "this")]:
                        q = frozenset((r, s) for r, s in pl if r != i)
                        if q:
                            st.add(("Q", pid, (q, op, kd, n.i)))
        if k == "Var":
            i = bare(e["id"])
            if refers(e["t"]) and e.get("init") is not None:
                hs = self.F.holders(e["init"]) if isref(e["t"]) else self.F.pointers(e["init"])
                self.bound += bool(hs)
                return self.bind(st, i, hs)
            return {x for x in st if x[1] != i}
        if k == "Bin" and e["op"] == "=" or k == "Call" and e.get("op") == "=" and len(operands(e)) == 2:
            a, b = (e["a"], e["b"]) if k == "Bin" else operands(e)
            a = deep(a)
            if a.get("k") == "Ref" and a.get("id") is not None:
                t = self.F.type.get(bare(a["id"]), a.get("t", ""))
                if (isptr(t) or isit(t)) and not isref(t):
                    return self.bind(st, bare(a["id"]), self.F.pointers(b))
        return st

    def check(self, n, e, st):
        stale = {}
        for x in st:
            if x[0] in ("S", "Q"):
                stale.setdefault(x[1], []).append(x)
        if not stale:
            return
        for i in self.uses(e):
            for x in stale.get(i, ()):
                if x[0] == "S":
                    self.report(self, i, n, x[2])
                else:
                    q, op, kd, at = x[2]
                    k = dict(self.params).get(i, "this")
                    for r, s in q:
                        self.needs.add((k, r, s, op, kd, self.B.nodes[at].where() if hasattr(self.B.nodes[at], "where") else ""))

    def passes(self, n, e, st):
        """an element handed to a function that lets its list change and goes on using it"""
        need = self.A.needs(e.get("fn"))
        if not need:
            return
        c = callargs(self.P, e)
        if c is None:
            return
        g, ob, pa = c
        for k, r, s, op, kd, w in need:
            if k == "this":
                if ob is None:
                    continue
                a = deep(ob)
                hs = self.F.pointers(a) if isptr(a.get("t", "")) else self.F.holders(a)
            else:
                if k >= len(pa):
                    continue
                a = deep(pa[k][1])
                pt = pa[k][0]["t"]
                hs = self.F.holders(a) if isref(pt) and not isit(pt) else self.F.pointers(a)
            ns = self.A.translate(self.F, c, r, s)
            for h in hs:
                for x in self.held(st, "#", h):
                    if x[0] == "L" and x[2][0] == "in" and ends(x[2], ns, op, kd):
                        self.report(self, k, n, None, (g["n"], w))
                j = bare(h[1]) if h[0] == "var" else None
                if j in dict(self.params) and len(h) <= 2:
                    for r2, s2 in ns:
                        if (type(r2) is int or r2 == "this" or r2.startswith("g:")) and r2 != dict(self.params)[j]:
                            self.needs.add((dict(self.params)[j], r2, s2, op, kd, w))

    def flags(self):
        """local switches that only ever hold constants: paths are told apart by their values"""
        val, no = {}, set()
        for n in self.B.nodes:
            e = n.ast
            if e is None or n.kind != "ev":
                continue
            k = e.get("k")
            if k == "Var" and re.sub(r"const|\s", "", e.get("t", "")) == "bool":
                v = cfg.cval(deep(e["init"])) if e.get("init") is not None else None
                val.setdefault(e["id"], set()).add(v)
                if v is None:
                    no.add(e["id"])
            elif k == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
                a = deep(e["a"])
                v = cfg.cval(deep(e["b"])) if e["op"] == "=" else None
                if a.get("k") == "Ref" and v is None:
                    no.add(a.get("id"))
            for x in walk(e):
                if x.get("k") == "Un" and x["op"] == "&" and deep(x["e"]).get("k") == "Ref":
                    no.add(deep(x["e"]).get("id"))
                elif x.get("k") == "Call":
                    for a in operands(x):
                        if a.get("k") == "Ref":
                            no.add(a.get("id"))
                elif x.get("k") == "Lambda":
                    for a in walk(x):
                        no.add(a.get("id"))
        return [i for i in val if i not in no][:6]

    def solve(self):
        B = self.B
        fl = set(self.flags())
        state = {(B.entry.i, frozenset()): frozenset()}
        work = list(state)
        n0 = 0
        while work:
            i, key = work.pop()
            n0 += 1
            if n0 > 400000:
                raise AnalysisBroken("%s: no fixed point" % self.f["n"])
            n = B.nodes[i]
            o = self.transfer(n, state[(i, key)])
            e, key2 = n.ast, key
            if n.kind == "ev" and e is not None and fl:
                v = None
                if e.get("k") == "Var" and e["id"] in fl:
                    v = (e["id"], bool(cfg.cval(deep(e["init"]))))
                elif e.get("k") == "Bin" and e["op"] == "=" and deep(e["a"]).get("k") == "Ref" and deep(e["a"]).get("id") in fl:
                    v = (deep(e["a"])["id"], bool(cfg.cval(deep(e["b"]))))
                if v is not None:
                    key2 = frozenset({x for x in key if x[0] != v[0]} | {v})
            for t, l in list(n.succ) + ([(n.exc, "exc")] if n.exc is not None else []):
                if n.kind == "br" and l in (True, False) and e is not None:
                    x, pol = strip(e), l
                    while x.get("k") == "Un" and x["op"] == "!":
                        x, pol = strip(x["e"]), not pol
                    if x.get("k") == "Ref" and (x.get("id"), not pol) in key2:
                        continue
                s = frozenset(x for x in o if not (type(x[1]) is tuple and t not in self.bodies[x[1][1]] and t != x[1][1]))
                p = (t, key2)
                if p not in state or not s <= state[p]:
                    state[p] = s | state.get(p, frozenset())
                    work.append(p)


OWN = ("substr", "to_string", "str", "format", "operator+", "string", "generic_string")


class Lives:
    """views, pointers and iterators into a list that ends with the statement or the function"""

    def __init__(self, A, f):
        self.A, self.P, self.f, self.F = A, A.P, f, A.fn(f)
        self.sites, self.bad = 0, []
        self.local = {e["id"]: e for e in fn_nodes(f) if e.get("k") == "Var"}
        inner = {}
        for e in fn_nodes(f):
            if e.get("k") == "Lambda":
                for x in fn_nodes({"body": e.get("body")}) if e.get("body") else ():
                    if x.get("k") == "Return":
                        inner[id(x)] = e
        for e in fn_nodes(f):
            k = e.get("k")
            if k == "Var" and refers(e["t"]) and e.get("init") is not None:
                self.sites += 1
                if self.into(e["init"]) if not isref(e["t"]) else self.element(e["init"]):
                    self.bad.append((e.get("l"), "%s is bound into a list that ends with the statement" % e["n"]))
            elif k == "RFor":
                x = deep(e["range"])
                self.sites += 1
                if x.get("k") == "Call" and x.get("obj") is not None and self.byvalue(x["obj"]) and any(refers(g.get("ret", "")) for g in self.P.callees(x)):
                    self.bad.append((e.get("l"), "the loop runs over part of an object that ended before the loop"))
            elif k == "Return" and e.get("e") is not None and id(e) not in inner and refers(f.get("ret", "")):
                self.sites += 1
                self.leaves(e, f["ret"])

    def owner(self, t):
        return kind(t) is not None and not isref(t)

    def byvalue(self, e):
        e = deep(e)
        if e.get("k") == "Call":
            gs = self.P.callees(e)
            return bool(gs) and not any(refers(g.get("ret", "")) or "_ptr<" in g.get("ret", "") for g in gs)
        return e.get("k") in ("Construct", "Init") and not refers(e.get("t", ""))

    def temp(self, e):
        """does the expression make a list that ends with the statement?"""
        while e is not None and e.get("k") == "Cast":
            e = e["e"]
        if e is not None and e.get("k") == "Construct" and self.owner(e.get("t", "")):
            return True
        e = deep(e)
        if e is None:
            return False
        k = e.get("k")
        if k in ("Construct", "Init"):
            return self.owner(e.get("t", ""))
        if k == "Cond":
            return any(self.temp(e[z]) for z in ("a", "b") if e.get(z) is not None)
        if k == "Call":
            gs = self.P.callees(e)
            if gs:
                return self.owner(gs[0].get("ret", ""))
            return short(e) in OWN and self.owner(e.get("t", ""))
        return False

    def element(self, e):
        """is an lvalue an element of such a list?"""
        e = deep(e)
        if e.get("k") == "Index":
            return self.temp(e["base"])
        if e.get("k") == "Call" and operands(e) and (e.get("op") == "[]" or short(e) in ("front", "back", "at")):
            return self.temp(operands(e)[0])
        return False

    def into(self, e, d=0):
        """does a pointer, iterator or view point into such a list?"""
        e = deep(e)
        if e is None or d > 10:
            return False
        k = e.get("k")
        if k == "Call":
            o, s = operands(e), short(e)
            if o and kind(ctype(o[0])) and (s in ELEMS or s.startswith("operator basic_string_view")):
                return self.temp(o[0])
            if o and (e.get("op") in ("+", "-", "++", "--") or e.get("obj") is None and s in THROUGH):
                return self.into(o[0], d + 1)
        if k == "Construct" and e.get("args"):
            a = e["args"][0]
            return self.into(a, d + 1) or ("string_view" in e.get("t", "") or "span<" in e.get("t", "")) and self.temp(a)
        if k == "Bin" and e["op"] in ("+", "-"):
            return self.into(e["a"], d + 1)
        if k == "Un" and e["op"] == "&":
            return self.element(e["e"])
        return False

    def dies(self, i):
        v = self.local.get(i)
        return v is not None and not refers(v["t"]) and not v.get("static") and not v.get("gk")

    def leaves(self, e, ret):
        x = deep(e["e"])
        hs = self.F.holders(x) if isref(ret) else self.F.pointers(x)
        if not isref(ret) and self.into(x) or isref(ret) and self.element(x):
            self.bad.append((e.get("l"), "what is returned lies in a list that ends with the statement"))
        for h in self.A.close(self.F, hs):
            for r, s in h[1] if h[0] == "in" else ():
                if type(r) is str and r.startswith("v:") and "*" not in s:
                    i = r[2:]
                    if self.dies(int(i) if i.isdigit() else i):
                        self.bad.append((e.get("l"), "what is returned lies in a list of this function"))
        if isref(ret) and x.get("k") == "Ref" and self.dies(x.get("id")):
            self.bad.append((e.get("l"), "a local of this function is returned by reference"))


def where(n):
    l = n.loc()
    return l if isinstance(l, str) else str(l)


def run(ck):
    P = ck.load("common", "vis", "qbsp", "light", "bsputil", "bspinfo", "maputil")
    A = All(P)
    bad = {}

    def report(fl, var, n, change, callee=None):
        bad.setdefault(fl.f["key"], {}).setdefault((str(var), n.loc()), (fl, var, n, change, callee))
    A.report = report
    seen = {}
    for fn, f in sorted(P.fns.items()):
        if f["n"].startswith(QUIET + ("nlohmann",)) or not f.get("body"):
            continue
        fl = A.flow(fn)
        if fl is None:
            continue
        ck.count("functions that change lists, explored", 1)
        ck.count("references, pointers and iterators followed", fl.bound)
        ck.count("list changes", len([1 for n in fl.B.nodes if fl.changed(n)]))
        k = "%s:%s" % (f["f"], f["n"])
        seen[k] = seen.get(k, 0) + 1
        msgs = []
        for (v, l), (g, var, n, ch, callee) in sorted(bad.get(fn, {}).items(), key=str):
            if callee is not None:
                msgs.append("%s: an element handed to %s is used there after its list changed (%s)" % (where(n), callee[0].split("::")[-1], callee[1]))
                continue
            nm = next((x.get("n") for x in nodes_of(g) if x.get("k") in ("Var", "RVar", "LParam") and bare(x.get("id")) == var), None) or ("the position in the range" if var == "range" else str(var))
            msgs.append("%s: %s is used after its list may have moved or dropped it at %s" % (where(n), nm, where(g.B.nodes[ch])))
        ck.ob("valid", k + ("#%d" % seen[k] if seen[k] > 1 else ""), not msgs, "%s:%d" % (f["f"], f["l"]), msgs[0] if msgs else "no reference, pointer or iterator is used after its list may have moved or dropped it (%d followed)" % fl.bound)
    ck.floor("valid", 300)
    seen = {}
    for fn, f in sorted(P.fns.items(), key=lambda z: (z[1]["f"], z[1]["l"], z[0])):
        if not f.get("body") or f["n"].startswith(QUIET):
            continue
        lv = Lives(A, f)
        if not lv.sites:
            continue
        k = "%s:%s" % (f["f"], f["n"])
        seen[k] = seen.get(k, 0) + 1
        ck.ob("lives", k + ("#%d" % seen[k] if seen[k] > 1 else ""), not lv.bad, "%s:%d" % (f["f"], lv.bad[0][0] if lv.bad else f["l"]),
              lv.bad[0][1] if lv.bad else "no view, pointer or iterator is bound into a list that ends before it (%d places)" % lv.sites)
    ck.floor("lives", 300)
    ck.assumptions.append("two different index expressions into an outer list may name different elements: only changes through the same expression, variable or whole list are matched")
    ck.notes.append("pointers stored inside other objects are not followed, only those held in variables, parameters, ranges and function results")


def nodes_of(g):
    for n in g.B.nodes:
        if n.ast is not None:
            yield n.ast
