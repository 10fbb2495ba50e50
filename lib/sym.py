"""Symbolic summaries of an inlined control-flow graph: every value is a canonical formula over memory locations and loop indices,
and for every loop (and the function as a whole) the set of {conditions that held, effects in order} of its iterations is collected.
Index variables of counted loops, range loops, iterators and pointers walking an array all become the same symbol i<count>."""
import re
import absint, cfg, flow, loops, model, poly
from absint import CMP, compare, deep
from flow import operands, short
from model import strip, walk

INTS = ("int", "unsigned", "long", "short", "char", "size_t", "bool", "ptrdiff_t", "int64_t", "uint")


def isptr(t):
    return re.sub(r"(const|volatile|\s)+$", "", t).endswith("*")


def isint(t):
    t = re.sub(r"\bconst\b", "", t).replace("&", "").strip()
    return not isptr(t) and any(t.startswith(x) or t.startswith("std::" + x) for x in INTS + ("int8_t", "int16_t", "int32_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t")) or t.startswith("enum")


_MODS = {}
ELEM = ("at", "front", "back", "data", "begin", "end", "rbegin", "rend", "find", "top")
SAME = ("get", "value", "value_or", "move", "forward", "as_const", "ref")
QUIET = ("logging::", "fmt::", "FError", "Error", "std::")


def roots_of(x, ref, depth=0):
    """places an expression may name: (root, path) with the path made of .field and [] steps"""
    x = deep(x)
    if x is None or depth > 12:
        return []
    k = x.get("k")
    if k == "Ref":
        if x.get("dk") == "global" or x.get("gk"):
            return [("g:" + x["n"].split("::")[-1], "")]
        return ref(x, depth)
    if k == "This":
        return [("this", "")]
    if k == "Member":
        if x.get("anon"):
            return roots_of(x["base"], ref, depth + 1)
        b = [("this", "")] if x.get("base") is None else roots_of(x["base"], ref, depth + 1)
        return [(r, p + "." + x["f"]) for r, p in b]
    if k == "Index":
        return [(r, p + "[]") for r, p in roots_of(x["base"], ref, depth + 1)]
    if k == "Un":
        return roots_of(x["e"], ref, depth + 1)
    if k == "Cond":
        return [y for z in ("a", "b") if x.get(z) is not None for y in roots_of(x[z], ref, depth + 1)]
    if k == "Bin" and x["op"] in ("=", "+=", "-=", "+", "-"):
        return roots_of(x["a"], ref, depth + 1)
    if k == "Call" and operands(x):
        s, o = short(x), operands(x)
        if x.get("op") in ("*", "->", "+", "-", "++", "--", "=") or s in SAME or x.get("conv") or s.startswith("operator ") and len(o) == 1:
            return roots_of(o[-1] if s.startswith("get") and x.get("obj") is None else o[0], ref, depth + 1)
        if x.get("op") == "[]" or s in ELEM or s in ("emplace_back", "emplace", "insert"):
            return [(r, p + "[]") for r, p in roots_of(o[0], ref, depth + 1)]
    return []


def cut(p):
    """at most five steps: a shorter place covers more"""
    q = re.findall(r"\.[^.\[]+|\[\]", p)
    return "".join(q[:5])


def norm(l):
    """a symbolic location with the indices dropped"""
    out, d = [], 0
    for c in l:
        if c == "[":
            if d == 0:
                out.append("[]")
            d += 1
        elif c == "]":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


def within(l, p):
    return l.startswith(p) and l[len(p):len(p) + 1] in ("", ".", "[")


def writes_of(e):
    """(target expression, whether it is a container operation) an expression node writes, or None"""
    k = e.get("k")
    if k == "Bin" and e["op"].endswith("=") and e["op"] not in CMP:
        return e["a"]
    if k == "Un" and ("++" in e["op"] or "--" in e["op"]):
        return e["e"]
    if k == "Call":
        if e.get("op", "").endswith("=") and e["op"] not in CMP or e.get("op") in ("++", "--"):
            return operands(e)[0]
        if e.get("obj") is not None and short(e) in Sym.MUT:
            return e["obj"]
        if short(e) == "back_inserter":
            return operands(e)[0]
    return None


def callargs(P, e):
    """(callee record, object expression, [(parameter, argument)]) of a call into the program"""
    g = P.fns.get(e.get("fn"))
    if g is None or g["n"].startswith(QUIET):
        return None
    o = operands(e)
    ob = None
    if e.get("obj") is not None:
        ob, o = e["obj"], o[1:]
    return g, ob, list(zip(g["params"], o))


def outparam(t):
    t = t.strip()
    return t.endswith("&") and not re.match(r"const\b", t) or isptr(t) and not re.match(r"const\b", t) or "_ptr<" in t or t.endswith("ptr") and "&" not in t


def mods(P, fn):
    """{(root, path)} a function or anything it calls may write; root is g:global, this, or a parameter's number"""
    key = (id(P), fn)
    if key in _MODS:
        return _MODS[key]
    info, st = {}, [fn]
    while st:
        x = st.pop()
        if x in info or x not in P.fns:
            continue
        f = P.fns[x]
        if f["n"].startswith(QUIET):
            info[x] = (set(), [])
            continue
        if (id(P), x) in _MODS:
            info[x] = (set(_MODS[(id(P), x)]), [])
            continue
        init, par = {}, {p["id"]: (i, p) for i, p in enumerate(f["params"])}
        nodes = list(model.fn_nodes(f))
        for e in nodes:
            if e.get("k") == "Var" and e.get("init") is not None and (e["t"].strip().endswith("&") or isptr(e["t"]) or "terator" in e["t"] or "_ptr<" in e["t"]):
                init.setdefault(e["id"], []).append(e["init"])
            elif e.get("k") == "RFor" and (e["var"]["t"].strip().endswith("&") or isptr(e["var"]["t"])):
                init.setdefault(e["var"]["id"], []).append({"k": "Index", "base": e["range"], "idx": None})
            elif e.get("k") == "Bin" and e["op"] == "=" and isptr(deep(e["a"]).get("t", "")) and deep(e["a"]).get("k") == "Ref" and deep(e["a"]).get("id") is not None:
                init.setdefault(deep(e["a"])["id"], []).append(e["b"])

        def ref(x, depth, init=init, par=par):
            i = x.get("id")
            if i in par:
                return [(par[i][0], "")] if par[i][1]["t"].strip().endswith("&") or isptr(par[i][1]["t"]) else []
            return [y for z in init.get(i, ())[:4] for y in roots_of(z, ref, depth + 2)]
        out, calls = set(), []
        for e in nodes:
            t = writes_of(e)
            if t is not None:
                d = deep(t)
                # assigning a pointer variable does not write what it points to
                if d.get("k") == "Ref" and isptr(d.get("t", "")) and d.get("id") is not None and d["id"] not in par:
                    continue
                out |= {(r, cut(p)) for r, p in roots_of(t, ref)}
            if e.get("k") == "Call":
                c = callargs(P, e)
                if c is not None:
                    g, ob, pa = c
                    calls.append((e["fn"], roots_of(ob, ref) if ob is not None else [("this", "")], [roots_of(a, ref) for p, a in pa]))
                    st.append(e["fn"])
            elif e.get("k") == "Lambda":
                for y in e.get("fns") or [e.get("fn")]:
                    if y:
                        calls.append((y, [], []))
                        st.append(y)
        info[x] = (out, calls)
    ch = True
    while ch:
        ch = False
        for x, (out, calls) in info.items():
            n0 = len(out)
            for g, th, ar in calls:
                if g not in info:
                    continue
                for r, p in list(info[g][0]):
                    if type(r) is int:
                        b = ar[r] if r < len(ar) else []
                    elif r == "this":
                        b = th
                    else:
                        b = [(r, "")]
                    for r2, p2 in b:
                        out.add((r2, cut(p2 + p)))
            if len(out) != n0:
                ch = True
    for x, (out, calls) in info.items():
        _MODS[(id(P), x)] = out
    return out if False else _MODS[key]


class Loop:
    def __init__(self):
        self.kind = None  # "count", "range", "lambda", "?"
        self.ind = {}  # induction variables: id -> step
        self.exit = None  # condition node
        self.cond = None
        self.body = set()
        self.assigned = set()
        self.inner = set()
        self.conts = {}


class Sym:
    def __init__(self, B, roots=None, track=None, assume=None, val=None, limit=300000, grow=None, P=None, f=None):
        self.P, self.f = P, f
        self.B = B
        self.roots = roots or {}
        self.track = track or (lambda n, S, env: None)
        self.assume = assume or (lambda atom: None)
        self.valhook = val or (lambda e, env, S: None)
        self.rats = {}
        self.iters = {}
        self.where = {}
        self.names = {}
        self.alias = {}
        self.loop = {}
        self.kmods = {}
        self.gens = {}
        self.statics()
        for n in B.nodes:
            if n.kind == "loop":
                self.loop[n.i] = self.analyse(n)
        self.ctxof = {}
        for n in B.nodes:
            self.ctxof[n.i] = [h for h in loops.loops_of(B, n.i)]
        # nodes from which the function can still end normally
        pr = loops.preds(B)
        self.live, st = set(), [B.exit.i]
        while st:
            x = st.pop()
            if x in self.live:
                continue
            self.live.add(x)
            for p in pr.get(x, ()):
                if any(t == x and l not in ("throw", "noreturn", "exc") for t, l in B.nodes[p].succ):
                    st.append(p)
        self.F = flow.Flow(B, frozenset(), self.step, limit=limit)
        for s in self.F.states(B.exit):
            self.record("F", dict(s), "end", B.exit)

    # ------------------------------------------------------------- set-up
    def statics(self):
        self.types = {}
        for n in self.B.nodes:
            if n.ast is None:
                continue
            if n.ast.get("k") in ("Var", "RVar", "LParam"):
                self.types[n.ast["id"]] = n.ast.get("t", "")
                self.names[n.ast["id"]] = n.ast.get("n", "")
        self.inits, self.mentioned = {}, set()
        for n in self.B.nodes:
            e = n.ast
            if e is None:
                continue
            if e.get("k") == "Var" and e.get("init") is not None and (e["t"].strip().endswith("&") or isptr(e["t"]) or "terator" in e["t"] or "_ptr<" in e["t"]):
                self.inits.setdefault(e["id"], []).append(e["init"])
            elif e.get("k") == "RVar" and (e["t"].strip().endswith("&") or isptr(e["t"])):
                self.inits.setdefault(e["id"], []).append({"k": "Index", "base": e["range"], "idx": None})
            elif e.get("k") == "Bin" and e["op"] == "=" and isptr(deep(e["a"]).get("t", "")) and deep(e["a"]).get("k") == "Ref" and deep(e["a"]).get("id") is not None:
                self.inits.setdefault(deep(e["a"])["id"], []).append(e["b"])
            for x in walk(e):
                if x.get("k") == "Member":
                    self.mentioned.add(x["f"])
                elif x.get("k") == "Ref" and (x.get("dk") == "global" or x.get("gk")):
                    self.mentioned.add(x["n"].split("::")[-1])
        # objects some field of which is assigned: a copy made to start them off is an object of its own
        self.own = set()
        for n in self.B.nodes:
            e = n.ast
            if e is not None and e.get("k") == "Bin" and e["op"].endswith("=") and e["op"] not in CMP:
                x = deep(e["a"])
                while x is not None and x.get("k") == "Member" and not x.get("arrow") and x.get("base") is not None:
                    x = deep(x["base"])
                    if x.get("k") == "Ref" and x.get("id") is not None:
                        self.own.add(x["id"])
        for p in self.B.fn["params"]:
            self.types["0.%s" % p["id"]] = p["t"]
            self.names["0.%s" % p["id"]] = p["n"]

    def analyse(self, H):
        L = Loop()
        B = self.B
        L.body = bd = loops.body(B, H.i)
        for i in bd:
            e = B.nodes[i].ast
            if B.nodes[i].kind != "ev" or e is None:
                continue
            k = e.get("k")
            if k in ("Var", "RVar", "LParam"):
                L.assigned.add(e["id"])
                L.inner.add(e["id"])
            elif k == "Bin" and e["op"].endswith("=") and e["op"] not in CMP or k == "Un" and ("++" in e["op"] or "--" in e["op"]):
                x = deep(e["a"] if k == "Bin" else e["e"])
                if x.get("k") == "Ref" and "id" in x:
                    L.assigned.add(x["id"])
            elif k == "Call" and e.get("op") in ("=", "+=", "-=", "++", "--", "*=", "|=", "&="):
                x = deep(operands(e)[0])
                if x.get("k") == "Ref" and "id" in x:
                    L.assigned.add(x["id"])
        ex = H.extra
        if ex and ex[0] == "rfor":
            L.kind = "range"
        elif ex and ex[0] == "lambda":
            L.kind = "lambda"
        else:
            L.kind = "?"
            br, i, seen = None, H.i, set()
            while i not in seen:
                seen.add(i)
                n = B.nodes[i]
                if n.kind == "br":
                    br = n
                    break
                if len(n.succ) != 1:
                    break
                i = n.succ[0][0]
            if br is not None and any(s not in bd for s, l in br.succ):
                L.exit = br
                L.pol = [l for s, l in br.succ if s in bd]
                L.pol = L.pol[0] if len(L.pol) == 1 else None
        if bd:
            for v in list(L.assigned):
                a = loops.assigned_in(B, v, bd)
                total = 0
                for i, e in a:
                    st = self.stepof(e)
                    if st is None or loops.loops_of(B, i)[:1] != [H.i] or not self.always(H, bd, i):
                        total = None
                        break
                    total += st
                if a and total:
                    L.ind[v] = (total, a[0][0])
        # containers that grow by one element on every way round
        L.grow = {}
        L.touch = []
        for i in bd:
            e = B.nodes[i].ast
            if B.nodes[i].kind == "ev" and e is not None and e.get("k") == "Call" and e.get("obj") is not None and short(e) in self.MUT:
                L.touch.append((i, e, e["obj"]))
            elif B.nodes[i].kind == "ev" and e is not None and e.get("k") == "Call":
                for x in operands(e):
                    d = deep(x)
                    if d.get("k") == "Call" and short(d) == "back_inserter":
                        L.touch.append((i, e, operands(d)[0]))
        return L

    def always(self, H, bd, i):
        """node i is on every way round the loop"""
        r = loops.reach_from(self.B, [s for s, l in H.succ if s in bd], stop=(i,))
        return not any(p in r for p in loops.preds(self.B).get(H.i, ()) if p in bd)

    MUT = ("push_back", "emplace_back", "insert", "resize", "clear", "assign", "append", "pop_back", "erase", "emplace", "reserve", "swap", "shrink_to_fit", "fill")

    def stepof(self, e):
        if e.get("k") == "Un":
            return 1 if "++" in e["op"] else -1
        if e.get("k") == "Call" and e.get("op") in ("++", "--"):
            return 1 if e["op"] == "++" else -1
        if e.get("k") == "Bin" and e["op"] in ("+=", "-=") or e.get("k") == "Call" and e.get("op") in ("+=", "-="):
            c = cfg.cval(e["b"] if e.get("k") == "Bin" else operands(e)[1])
            return None if c is None else c if e["op"] == "+=" else -c
        if e.get("k") == "Bin" and e["op"] == "=":
            b = deep(e["b"])
            if b.get("k") == "Bin" and b["op"] in ("+", "-") and deep(b["a"]).get("id") == deep(e["a"]).get("id"):
                c = cfg.cval(b["b"])
                return None if c is None else c if b["op"] == "+" else -c
        return None

    # ------------------------------------------------------------- formulas
    def mk(self, r):
        s = repr(r)
        self.rats[s] = r
        return s

    def num(self, c):
        return self.mk(poly.const(c))

    def at_(self, name):
        return self.mk(poly.atom(name))

    def rat(self, s):
        r = self.rats.get(s)
        return r if r is not None else poly.atom(s)

    def add(self, a, b, sign=1):
        return self.mk(self.rat(a) + self.rat(b) if sign > 0 else self.rat(a) - self.rat(b))

    def mul(self, a, b):
        return self.mk(self.rat(a) * self.rat(b))

    def constval(self, s):
        r = self.rats.get(s)
        if r is not None and r.d == poly.ONE and set(r.n) <= {()}:
            c = r.n.get((), 0)
            return int(c) if c == int(c) else float(c)
        return None

    def plain(self, s):
        """readable form: a single location rather than 1*location"""
        r = self.rats.get(s)
        if r is not None and r.d == poly.ONE and len(r.n) == 1:
            (m, c), = r.n.items()
            if m == ():
                return str(c)
            if c == 1 and len(m) == 1:
                return m[0]
        if r is not None and not r.n:
            return "0"
        return s

    def fdiv(self, a, c):
        k = self.constval(a)
        if type(k) is int and k >= 0:
            return self.num(k // c)
        r = self.rats.get(a)
        # floor((x div m) div n) = x div (m n)
        p = self.plain(a)
        if p.startswith("div(") and p.endswith(")"):
            x, m = p[4:-1].rsplit(",", 1)
            return self.at_("div(%s,%d)" % (x, int(m) * c))
        return self.at_("div(%s,%d)" % (self.plain(a), c))

    # ------------------------------------------------------------- locations and pointers
    def elem(self, base, off):
        return "%s[%s]" % (base, self.plain(off))

    def deref(self, v):
        """location a pointer value points to"""
        if v is None:
            return None
        if v[0] == "L":
            return v[1] if v[2] is None else self.elem(v[1], v[2])
        if v[0] == "R":
            return self.plain(v[1])
        return None

    def loc(self, e, env):
        e = deep(e)
        if e is None:
            return None
        k = e.get("k")
        if k == "Ref":
            i = e.get("id")
            if i is None:
                return e.get("gk") and e["n"].split("::")[-1] or e.get("n")
            if i in self.roots:
                return self.roots[i]
            v = env.get(i)
            t = self.types.get(i, e.get("t", ""))
            if v is not None and v[0] == "L" and (t.endswith("&") or v[-1] == "alias" or not isptr(t) and "terator" not in t and not t.startswith("auto")):
                if "*" not in t.replace(" ", "")[-1:] and "terator" not in t:
                    return self.deref(v)
            if e.get("dk") == "global":
                return e["n"].split("::")[-1]
            return "v:%s" % i
        if k == "This":
            return "this"
        if k == "Member":
            if e.get("anon"):
                return self.loc(e["base"], env)
            b = "this" if e.get("base") is None else self.obj(e["base"], env)
            return b and b + "." + e["f"]
        if k == "Un" and e["op"] == "*":
            return self.deref(self.val(e["e"], env))
        if k == "Un" and e["op"] in ("++", "--"):
            return self.loc(e["e"], env)
        if k == "Index":
            return self.index(e["base"], e["idx"], env)
        if k == "Bin" and e["op"] in ("=", "+=", "-=", "|=", "&="):
            return self.loc(e["a"], env)
        if k == "Call":
            o = operands(e)
            s = short(e)
            if e.get("op") in ("*", "->") and len(o) == 1:
                return self.deref(self.val(o[0], env)) if "L" in (self.val(o[0], env) or ("",))[0:1] else self.obj(o[0], env)
            if s in ("move", "forward", "as_const", "ref", "get", "value", "emplace") and len(o) == 1:
                return self.loc(o[0], env)
            if e.get("conv") or s.startswith("operator ") and len(o) == 1 and not e.get("op"):
                return self.loc(o[0], env)
            if (e.get("op") == "[]" or s == "at") and len(o) == 2:
                return self.index(o[0], o[1], env)
            if s == "front" and len(o) == 1:
                b = self.obj(o[0], env)
                return b and self.elem(b, self.num(0))
            if s == "back" and len(o) == 1:
                b = self.obj(o[0], env)
                return b and self.elem(b, self.add(self.size(b, env), self.num(1), -1))
            if s == "emplace_back":
                b = self.obj(o[0], env)
                return b and self.elem(b, self.add(self.size(b, env), self.num(1), -1))
            if s == "get" or s.startswith("get<"):
                return o and self.loc(o[-1], env)
            if s.startswith("get_") and len(o) == 1 and e.get("obj") is not None and not isint(e.get("t", "")) and not isptr(e.get("t", "")):
                b = self.obj(o[0], env)
                return b and "%s(%s)" % (s, b)
        return None

    def obj(self, e, env):
        """location of an object used with . or -> or []"""
        x = deep(e)
        t = x.get("t", "")
        v = self.val(x, env)
        if v is not None and v[0] == "L":
            if isptr(t) or "terator" in t or x.get("k") == "Ref" or x.get("k") == "Un" and x["op"] == "&" or x.get("k") == "Call":
                r = self.deref(v)
                if x.get("k") == "Call" and short(x) in ("data", "begin", "end") and v[2] is not None:
                    r = v[1]
                return r
        l = self.loc(x, env)
        if l is not None:
            return l
        return None

    def index(self, base, idx, env):
        x = deep(base)
        v = self.val(x, env)
        i = self.scalar(idx, env)
        if i is None:
            return None
        t = x.get("t", "")
        if v is not None and v[0] == "L" and (isptr(t) or "terator" in t or x.get("k") == "Call" and short(x) in ("data", "begin") or v[2] is not None and isptr(t)):
            return self.elem(v[1], i if v[2] is None else self.add(v[2], i))
        b = self.loc(x, env)
        return b and self.elem(b, i)

    def fixed(self, e):
        """number of elements of an expression of array type"""
        t = deep(e).get("t", "")
        m = re.search(r"\bstd::array<[^<>]*, (\d+)>[ &]*(?:const)?$", t) or re.search(r"\[(\d+)\]$", t)
        return self.num(int(m.group(1))) if m else None

    def size(self, b, env):
        s = env.get("#sz:" + b)
        return s if s is not None else self.at_(b + ".size()" + self.version(b, env, True))

    # ------------------------------------------------------------- values
    def scalar(self, e, env):
        """formula of an arithmetic value"""
        v = self.val(e, env)
        if v is None:
            return None
        if v[0] == "R":
            return v[1]
        if v[0] == "B":
            return self.at_(("" if v[2] else "!") + v[1])
        if v[0] == "L":
            return self.at_("&" + self.deref(v))
        return None

    def ptr(self, e, env):
        v = self.val(e, env)
        return v if v is not None and v[0] == "L" else None

    def val(self, e0, env, depth=0):
        h = self.valhook(e0, env, self)
        if h is not None:
            return h
        c = cfg.cval(e0)
        e = deep(e0)
        if e is None:
            return None
        if c is None:
            c = cfg.cval(e)
        if c is None and e is not e0:
            h = self.valhook(e, env, self)
            if h is not None:
                return h
        k = e.get("k")
        if k == "Null":
            return ("R", self.num(0))
        if c is not None and type(c) in (int, bool):
            return ("R", self.num(int(c)))
        if k == "Float":
            return ("R", self.num(e["v"]))
        if k == "Ref" and e.get("dk") == "ret" and e.get("id") in env:
            return env[e["id"]]
        t = e.get("t", "")
        if k == "Ref":
            i = e.get("id")
            if i is not None and i in env:
                v = env[i]
                if v[0] == "L" and (self.types.get(i, "").endswith("&") or v[-1] == "alias") and not isptr(t):
                    l = self.deref(v)
                    return self.load(l, env, t)
                if v[0] == "L" and self.types.get(i, "").endswith("&"):
                    return self.load(self.deref(v), env, t)
                return v
            l = self.loc(e, env)
            return self.load(l, env, t)
        if k in ("Member", "Index"):
            return self.load(self.loc(e, env), env, t)
        if k == "This":
            return ("L", "this", None)
        if k == "Un":
            op = e["op"]
            if op == "&":
                l = self.loc(e["e"], env)
                if l is None:
                    return None
                return self.addr(l)
            if op == "*":
                return self.load(self.loc(e, env), env, t)
            if op in ("-", "+"):
                a = self.scalar(e["e"], env)
                return a and ("R", a if op == "+" else self.mul(a, self.num(-1)))
            if op == "!":
                b = self.truth(e["e"], env)
                return b and ("B", b[0], not b[1])
            if op == "~":
                a = self.scalar(e["e"], env)
                return a and ("R", self.at_("not(%s)" % self.plain(a)))
            if op in ("++", "--", "p++", "p--"):
                # the event has been applied already
                v = self.val(e["e"], env)
                if v is not None and op[0] == "p":
                    return self.shift(v, self.num(-1 if "++" in op else 1))
                return v
            return None
        if k == "Bin" or k == "Call" and e.get("op") in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^") and len(operands(e)) == 2:
            if k == "Bin":
                op, x, y = e["op"], e["a"], e["b"]
            else:
                op = e["op"]
                x, y = operands(e)
            if op in ("=", "+=", "-=", "|=", "&="):
                return self.val(x, env)
            if op in CMP or op in ("&&", "||"):
                if op in ("&&", "||"):
                    # the branches just taken tell the value
                    k = self.known(x, env)
                    if k is not None:
                        if k == (op == "||"):
                            return ("B", "true", k)
                        b = self.val(y, env) if compare(strip(y)) is None and strip(y).get("op") not in ("&&", "||") else None
                        if b is not None and b[0] == "B":
                            return b
                        b = self.truth(y, env)
                        return b and ("B", b[0], b[1])
                    k = self.known(e, env)
                    return None if k is None else ("B", "true", k)
                b = self.truth(e, env)
                return b and ("B", b[0], b[1])
            va, vb = self.val(x, env), self.val(y, env)
            if va is None or vb is None:
                return None
            if op in ("+", "-") and va[0] == "L":
                if vb[0] == "L" and op == "-":
                    if va[1] == vb[1]:
                        return ("R", self.add(va[2] or self.num(0), vb[2] or self.num(0), -1))
                    if va[2] is None and (vb[2] is None or self.constval(vb[2]) == 0):
                        return ("R", self.at_("index(%s in %s)" % (va[1], vb[1])))
                    return None
                if vb[0] == "R":
                    return self.shift(va, vb[1] if op == "+" else self.mul(vb[1], self.num(-1)))
            if op == "+" and vb[0] == "L" and va[0] == "R":
                return self.shift(vb, va[1])
            a, b = self.scalar(x, env), self.scalar(y, env)
            if a is None or b is None:
                return None
            if op in ("+", "-"):
                return ("R", self.add(a, b, 1 if op == "+" else -1))
            if op == "*":
                return ("R", self.mul(a, b))
            ka, kb = self.constval(a), self.constval(b)
            integer = isint(t) or isint(deep(x).get("t", "")) and isint(deep(y).get("t", ""))
            if op == "/":
                if not integer:
                    return ("R", self.mk(self.rat(a) / self.rat(b))) if self.rat(b).n else None
                if type(kb) is int and kb > 0:
                    return ("R", self.fdiv(a, kb))
                return ("R", self.at_("div(%s,%s)" % (self.plain(a), self.plain(b))))
            if op == ">>" and type(kb) is int:
                return ("R", self.fdiv(a, 1 << kb))
            if op == "<<":
                if ka == 1:
                    return ("R", self.at_("bit(%s)" % self.plain(b)))
                if type(kb) is int:
                    return ("R", self.mul(a, self.num(1 << kb)))
            if op == "%" and type(kb) is int and kb > 0:
                return ("R", self.num(ka % kb) if type(ka) is int and ka >= 0 else self.at_("mod(%s,%d)" % (self.plain(a), kb)))
            if op == "&":
                for u, kv in ((a, kb), (b, ka)):
                    if type(kv) is int and kv > 0 and (kv & (kv + 1)) == 0 and kv > 1:
                        return ("R", self.at_("mod(%s,%d)" % (self.plain(u), kv + 1)))
            nm = {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr", "%": "mod"}.get(op)
            if nm is None:
                return None
            p = [self.plain(a), self.plain(b)]
            if nm in ("and", "or", "xor"):
                p.sort()
            return ("R", self.at_("%s(%s)" % (nm, ",".join(p))))
        if k == "Call":
            o = operands(e)
            s = short(e)
            if s in ("move", "forward", "as_const", "ref") and len(o) == 1:
                return self.val(o[0], env)
            if e.get("conv") or s.startswith("operator ") and len(o) == 1 and not e.get("op"):
                return self.val(o[0], env)
            if s in ("data", "begin", "cbegin") and len(o) == 1:
                b = self.obj(o[0], env)
                if b is None:
                    return None
                if "leafbits_t" in deep(o[0]).get("t", ""):
                    b += ".w"
                return ("L", b, self.num(0))
            if s in ("end", "cend") and len(o) == 1:
                b = self.obj(o[0], env)
                return b and ("L", b, self.fixed(o[0]) or self.size(b, env))
            if s in ("size", "ssize", "length") and len(o) == 1:
                b = self.obj(o[0], env)
                return b and ("R", self.fixed(o[0]) or self.size(b, env))
            if s == "empty" and len(o) == 1:
                b = self.obj(o[0], env)
                return b and ("B", self.cmpatom("==", self.size(b, env), self.num(0))[0], self.cmpatom("==", self.size(b, env), self.num(0))[1])
            if s == "nth_bit" and len(o) == 1:
                a = self.scalar(o[0], env)
                return a and ("R", self.at_("bit(%s)" % self.plain(a)))
            if s == "distance" and len(o) == 2:
                a, b = self.ptr(o[0], env), self.ptr(o[1], env)
                if a and b and a[1] == b[1]:
                    return ("R", self.add(b[2] or self.num(0), a[2] or self.num(0), -1))
            if s in ("min", "max") and len(o) == 2:
                a, b = self.scalar(o[0], env), self.scalar(o[1], env)
                if a and b:
                    return ("R", self.at_("%s(%s)" % (s, ",".join(sorted((self.plain(a), self.plain(b)))))))
            l = self.loc(e, env)
            if l is not None:
                return self.load(l, env, t)
            if e.get("op") in ("==", "!=", "<", ">", "<=", ">="):
                b = self.truth(e, env)
                return b and ("B", b[0], b[1])
            if e.get("op") in ("++", "--") and len(o) >= 1:
                return self.val(o[0], env)
            a = [self.scalar(x, env) for x in o]
            if any(x is None for x in a):
                a = [x if x is not None else self.at_(self.loc(y, env) or "?") for x, y in zip(a, o)]
            return ("R", self.at_("%s(%s)" % (s or e.get("op"), ",".join(self.plain(x) for x in a))))
        if k == "Init" or k == "Construct" and len(e.get("args", ())) > 1:
            c = [x for x in (e.get("c") if k == "Init" else e["args"]) or ()]
            if k == "Init" and len(c) == 1:
                return self.val(c[0], env)
            fs = e.get("fs") or ()
            r = []
            for i, x in enumerate(c):
                v = self.scalar(x, env)
                v = self.plain(v) if v else self.loc(x, env) or "?"
                r.append("%s=%s" % (fs[i], v) if i < len(fs) else v)
            return ("R", self.at_("{%s}" % ",".join(r)))
        if k == "Cond":
            return None
        return None

    def addr(self, l):
        if l.endswith("]"):
            d, i = 0, len(l) - 1
            while i >= 0:
                d += (l[i] == "]") - (l[i] == "[")
                if d == 0:
                    break
                i -= 1
            s = l[i + 1:-1]
            if s in self.rats:
                return ("L", l[:i], s)
            return ("L", l[:i], self.ofplain(s))
        return ("L", l, None)

    def ofplain(self, s):
        try:
            return self.num(int(s))
        except ValueError:
            return self.at_(s)

    def ofplain2(self, s):
        """formula with this printed form"""
        if s in self.rats:
            return s
        def cut(x, sep):
            out, d, cur, i = [], 0, "", 0
            while i < len(x):
                d += (x[i] in "([<") - (x[i] in ")]>")
                if d == 0 and x.startswith(sep, i):
                    out.append(cur)
                    cur = ""
                    i += len(sep)
                    continue
                cur += x[i]
                i += 1
            return out + [cur]
        r = poly.Rat({})
        for t in cut(s, " + "):
            q = poly.const(1)
            for x in cut(t, "*"):
                q = q * (poly.const(int(x)) if re.match(r"-?\d+$", x) else poly.atom(x))
            r = r + q
        return self.mk(r)

    def rdiv(self, a, name):
        """a / name where name is a factor of every term"""
        r = self.rat(a)
        n = {}
        for m, c in r.n.items():
            if name not in m:
                return a
            k = list(m)
            k.remove(name)
            n[tuple(k)] = c
        return self.mk(poly.Rat(n, r.d))

    def shift(self, v, by):
        if v[0] == "L":
            return ("L", v[1], self.add(v[2] or self.num(0), by))
        if v[0] == "R":
            return ("R", self.add(v[1], by))
        return None

    def load(self, l, env, t):
        if l is None:
            return None
        v = env.get("@" + l)
        if v is not None:
            return v
        if l.startswith("v:"):
            m = re.match(r"v:[^.\[]+", l)
            src = env.get("#cp:" + m.group(0))
            if src is not None and l != m.group(0):
                return self.load(src + l[m.end():], env, t)
        if isptr(t) or "terator" in t:
            return ("L", l, None)
        return ("R", self.at_(l + self.version(l, env)))

    # ------------------------------------------------------------- conditions
    def cmpatom(self, op, a, b):
        """(canonical comparison, polarity)"""
        d = self.rat(a) - self.rat(b)
        if not d.n or d.d == poly.ONE and set(d.n) <= {()}:
            c = d.n.get((), 0)
            r = {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
            return ("true", r)
        pol = True
        if op in ("!=", ">=", "<="):
            op, pol = CMP[op], False
        if op == ">":
            op, d = "<", d.neg()
        if op == "==":
            m = min(d.n)
            if d.n[m] < 0:
                d = d.neg()
            return ("%s == 0" % self.pp(d), pol)
        return ("%s < 0" % self.pp(d), pol)

    def pp(self, r):
        s = repr(r)
        self.rats[s] = r
        return self.plain(s)

    def atom_eq(self, a, b):
        return self.cmpatom("==", a, b)

    def known(self, e, env):
        """value of a condition whose parts were branched on: True, False or None"""
        e = strip(e)
        while e.get("k") == "Un" and e["op"] == "!":
            k = self.known(e["e"], env)
            return None if k is None else not k
        if e.get("k") == "Bin" and e["op"] in ("&&", "||"):
            a, b = self.known(e["a"], env), self.known(e["b"], env)
            z = e["op"] == "||"
            return z if z in (a, b) else (not z if a is not None and b is not None else None)
        r = self.truth(e, env)
        if r is None:
            return None
        if r[0] == "true":
            return r[1]
        f = self.assume(r[0])
        if f is None:
            vs = {v for k, v in env.items() if type(k) is str and k.startswith("#A|") and k.split("|", 2)[2] == r[0]}
            f = vs.pop() if len(vs) == 1 else None
        return None if f is None else f == r[1]

    def truth(self, e, env):
        """(atom, polarity) of a condition, or None"""
        e0 = e
        e = strip(e)
        if e.get("k") == "Un" and e["op"] == "!":
            r = self.truth(e["e"], env)
            return r and (r[0], not r[1])
        e = deep(e)
        if e.get("k") == "Un" and e["op"] == "!":
            r = self.truth(e["e"], env)
            return r and (r[0], not r[1])
        c = compare(e)
        if c:
            op, x, y = c
            va, vb = self.val(x, env), self.val(y, env)
            if va is None or vb is None:
                return None
            for u, w in ((va, vb), (vb, va)):
                if w[0] == "R" and self.constval(w[1]) in (0, 1) and u[0] == "B" and op in ("==", "!="):
                    return (u[1], u[2] == ((op == "==") == (self.constval(w[1]) == 1)))
            if va[0] == "L" and vb[0] == "L" and va[1] == vb[1]:
                a, b = va[2] or self.num(0), vb[2] or self.num(0)
            else:
                a, b = self.scalar(x, env), self.scalar(y, env)
            if a is None or b is None:
                return None
            if op in ("==", "!="):
                for u, uv, w, z in ((a, va, b, x), (b, vb, a, y)):
                    if self.constval(w) == 0 and (uv[0] == "L" or isptr(deep(z).get("t", ""))):
                        return (self.plain(u), op == "!=")
            for u, w in ((a, b), (b, a)):
                p = self.plain(u)
                if self.constval(w) == 0 and op in ("==", "!=") and p.startswith("and("):
                    r = self.bittest(p)
                    return (r, op == "!=")
                if op == "==" and p.startswith("and(") and self.plain(w) in p[4:-1].split(",") and self.plain(w).startswith("bit("):
                    return (self.bittest(p), True)
            # integers: a <= b is a < b + 1
            if op in ("<=", ">=", ">", "<") and all(isint(deep(z).get("t", "")) or type(self.constval(q)) is int for z, q in ((x, a), (y, b))):
                if op == "<=":
                    return self.cmpatom("<", a, self.add(b, self.num(1)))
                if op == ">":
                    r = self.cmpatom("<", a, self.add(b, self.num(1)))
                    return (r[0], not r[1])
            return self.cmpatom(op, a, b)
        if e.get("k") == "Bin" and e["op"] in ("&&", "||"):
            return None
        v = self.val(e, env)
        if v is None:
            return None
        if v[0] == "B":
            return (v[1], v[2])
        if v[0] == "L":
            return ("&" + self.deref(v), True) if v[2] is None else ("true", True)
        k = self.constval(v[1])
        if k is not None:
            return ("true", k != 0)
        p = self.plain(v[1])
        if p.startswith("and("):
            return (self.bittest(p), True)
        if e.get("t", "").startswith(("int", "unsigned", "long", "size_t", "uint", "short", "char")):
            a = self.cmpatom("==", v[1], self.num(0))
            return (a[0], not a[1])
        if p[:1] == "!":
            return (p[1:], False)
        return (p, True)

    def bittest(self, p):
        parts = self.split(p[4:-1])
        b = [x for x in parts if x.startswith("bit(")]
        if len(b) == 1 and len(parts) == 2:
            o = [x for x in parts if x is not b[0]][0]
            return "%s has %s" % (o, b[0][4:-1])
        return p

    def split(self, s):
        out, d, cur = [], 0, ""
        for ch in s:
            d += (ch in "([") - (ch in ")]")
            if ch == "," and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        return out + [cur]

    # ------------------------------------------------------------- transfer
    def ctx(self, n):
        for h in self.ctxof[n.i]:
            if n.i != h:
                return h
        return "F"

    def outer(self, h):
        for x in self.ctxof[h]:
            if x != h:
                return x
        return "F"

    def record(self, h, env, how, n):
        g = frozenset((k.split("|", 2)[2], v) for k, v in env.items() if k.startswith("#A|%s|" % h))
        t = (g, env.get("#E|%s" % h, ()), how)
        self.iters.setdefault(h, set()).add(t)
        self.where.setdefault((h, t), n)

    def clear(self, h, env):
        for k in [k for k in env if k.startswith("#A|%s|" % h) or k == "#E|%s" % h]:
            del env[k]

    def effect(self, n, env, eff, ctx=None):
        k = "#E|%s" % (ctx if ctx is not None else self.ctx(n))
        t = env.get(k, ())
        if eff not in t[-1:]:
            env[k] = t + (eff,)

    def assign(self, env, l, v):
        for k in [k for k in env if k.startswith("@" + l + ".") or k.startswith("@" + l + "[") or k.startswith("#sz:" + l + ".") or k.startswith("#sz:" + l + "[")]:
            del env[k]
        if v is None:
            env["@" + l] = ("R", self.at_("?" + l))
        else:
            env["@" + l] = v

    def setvar(self, env, i, v, n):
        if v is None:
            env[i] = ("R", self.at_("?%s@%d" % (i, n.i)))
        else:
            env[i] = v

    def bound(self, h, env):
        """symbol of the loop's index, or None"""
        L = self.loop[h]
        if L.exit is None or L.pol is None:
            return None
        c = compare(L.exit.ast)
        if not c:
            x = deep(L.exit.ast)
            if x is None or not (x.get("k") == "Ref" or x.get("k") == "Un" and x["op"] in ("++", "--", "p++", "p--")) or not isint(x.get("t", "")):
                return None
            c = ("!=", x, {"k": "Int", "v": 0, "cv": 0, "t": "int"})
        op, x, y = c
        for a, b, o in ((x, y, op), (y, x, absint.SWAP[op])):
            if not L.pol:
                o = CMP[o]
            a = deep(a)
            off = self.num(0)
            if a.get("k") == "Bin" and a["op"] in ("+", "-") and cfg.cval(a["b"]) is not None:
                off = self.num(cfg.cval(a["b"]) * (1 if a["op"] == "+" else -1))
                a = deep(a["a"])
            elif a.get("k") == "Bin" and a["op"] == "+":
                # the variable plus something the loop does not change
                for u, w in ((deep(a["a"]), a["b"]), (deep(a["b"]), a["a"])):
                    if u.get("k") == "Ref" and u.get("id") in L.ind and not any(z.get("k") == "Ref" and (z.get("id") in L.assigned or z.get("id") in L.ind) for z in walk(w)):
                        c2 = self.val(w, env)
                        if c2 is not None and c2[0] == "R":
                            off, a = c2[1], u
                            break
            if a.get("k") == "Un" and a["op"] in ("++", "--"):
                # the test itself steps the variable and looks at the new value
                off = self.add(off, self.num(1 if a["op"] == "++" else -1))
                a = deep(a["e"])
            elif a.get("k") == "Un" and a["op"] in ("p++", "p--"):
                a = deep(a["e"])
            v = a.get("id") if a.get("k") == "Ref" else None
            if v not in L.ind:
                continue
            st = L.ind[v][0]
            init = env.get("#i|%s|%s" % (h, v))
            lim = self.val(b, env)
            if init is None or lim is None or any(z.get("k") == "Ref" and z.get("id") in L.assigned for z in walk(b)):
                continue
            if init[0] == "L":
                if lim[0] != "L" or lim[1] != init[1]:
                    continue
                i0, l0 = init[2] or self.num(0), lim[2] or self.num(0)
            elif lim[0] == "R":
                i0, l0 = init[1], lim[1]
            else:
                continue
            i0 = self.add(i0, off)
            if st == 1 and o in ("<", "!="):
                return self.add(l0, i0, -1), v
            if st == 1 and o == "<=":
                return self.add(self.add(l0, i0, -1), self.num(1)), v
            if st == -1 and o in (">", "!="):
                return self.add(i0, l0, -1), v
            if st == -1 and o == ">=":
                return self.add(self.add(i0, l0, -1), self.num(1)), v
            k = self.constval(self.add(l0, i0, -1))
            if st > 1 and o == "<" and k is not None:
                return self.num(-(-k // st)), v
        return None

    def sym(self, h, env, count):
        """index symbol of the loop: nested loops over the same range get primes"""
        p = self.plain(count)
        used = {v for k, v in env.items() if k.startswith("#s|") and k != "#s|%s" % h and int(k[3:]) in self.ctxof[h]}
        n = "i<%s>" % p
        while n in used:
            n = "i'" + n[1:]
        env["#s|%s" % h] = n
        return self.at_(n)

    def slot(self, v, env):
        """where the current value of a variable is kept"""
        if v in self.roots:
            return "@" + self.roots[v]
        x = env.get(v)
        if self.types.get(v, "").endswith("&") and x is not None and x[0] == "L":
            return "@" + self.deref(x)
        return v

    def enterloop(self, n, env, first):
        """the state at the head: everything the loop changes is forgotten, induction variables become formulas of the index"""
        h = n.i
        L = self.loop[h]
        if first:
            for v in L.ind:
                s = self.slot(v, env)
                if s in env:
                    env["#i|%s|%s" % (h, v)] = env[s]
                elif type(s) is str and s[0] == "@":
                    env["#i|%s|%s" % (h, v)] = ("R", self.at_(s[1:] + self.version(s[1:], env)))
                elif type(v) is str and v.startswith("0."):
                    env["#i|%s|%s" % (h, v)] = ("R", self.at_("v:" + v))
            for i, e, o in L.touch:
                b = self.obj(o, env)
                if b is not None:
                    env["#i|%s|#sz:%s" % (h, b)] = ("R", self.size(b, env))
        pats = frozenset(p for i in L.body if self.B.nodes[i].kind == "ev" and self.B.nodes[i].ast.get("k") == "Call" for p in self.callmods(self.B.nodes[i]))
        self.forget("%d" % h, pats, env)
        mem = any(self.B.nodes[i].kind == "ev" and self.writes(self.B.nodes[i].ast) for i in L.body)
        for v in L.assigned:
            s = v if v in L.inner else self.slot(v, env)
            if type(s) is str and s[0] == "@":
                env[s] = ("R", self.at_("%s@%d" % (s[1:], h)))
            elif s in env:
                del env[s]
        for i, e, o in L.touch:
            if short(e) in ("reserve", "shrink_to_fit"):
                continue
            b = self.obj(o, env)
            if b is not None:
                env["#sz:" + b] = self.at_("%s.size()@%d" % (b, h))
        sy = env.get("#s|%s" % h)
        if sy:
            for k in [k for k in env if k.startswith("#sz:") and sy in k]:
                del env[k]
        last = {self.lastname(o) for i, e, o in L.touch if short(e) not in ("reserve", "shrink_to_fit")}
        for k in [k for k in env if k.startswith("#sz:") and ("[" in k or "." in k[7:]) and k.split(".")[-1].split("[")[0] in last]:
            env[k] = self.at_("%s.size()@%d" % (k[4:], h))
        if mem:
            for k in [k for k in env if k.startswith("@")]:
                if env.get("#s|%s" % h) and env["#s|%s" % h] in k:
                    del env[k]  # the next round looks at another element
                elif self.touched(L, k[1:]):
                    env[k] = ("R", self.at_("%s@%d" % (k[1:], h)))
        env.pop("#s|%s" % h, None)
        b = None
        if L.kind == "?":
            b = self.bound(h, env)
        count = b[0] if b else None
        if L.kind == "range":
            v = self.val(n.extra[2], env)
            bl = self.obj(n.extra[2], env)
            if bl is not None:
                count = self.fixed(n.extra[2]) or self.size(bl, env)
                env["#r|%s" % h] = bl
        elif L.kind == "lambda":
            count = self.lambdacount(n, env)
        if count is not None:
            s = self.sym(h, env, count)
            for v, (st, i) in L.ind.items():
                init = env.get("#i|%s|%s" % (h, v))
                if init is None:
                    continue
                if b and v == b[1] and st < 0:
                    # counting down: the same indices the other way round
                    env[self.slot(v, env)] = self.shift(self.shift(init, self.mul(self.add(count, self.num(1), -1), self.num(-1))), s)
                else:
                    env[self.slot(v, env)] = self.shift(init, self.mul(s, self.num(st)))
            env["#c|%s" % h] = count
        else:
            env.pop("#c|%s" % h, None)
            for v, (st, i) in L.ind.items():
                init = env.get("#i|%s|%s" % (h, v))
                if init is not None:
                    env[self.slot(v, env)] = self.shift(init, self.mul(self.at_("n@%d" % h), self.num(st)))

    def writes(self, e):
        if e is None:
            return False
        k = e.get("k")
        if k == "Bin" and e["op"].endswith("=") and e["op"] not in CMP or k == "Un" and ("++" in e["op"] or "--" in e["op"]):
            return deep(e["a"] if k == "Bin" else e["e"]).get("k") != "Ref" or True
        return k == "Call" and (e.get("op", "").endswith("=") and e["op"] not in CMP or e.get("op") in ("++", "--"))

    def lastname(self, x):
        x = deep(x)
        while x is not None:
            k = x.get("k")
            if k == "Member":
                return x["f"]
            if k == "Ref":
                return x.get("n", "").split("::")[-1]
            x = deep(x["base"]) if k == "Index" else deep(x["e"]) if k == "Un" else deep(operands(x)[0]) if k == "Call" and operands(x) else None
        return None

    def touched(self, L, l):
        """may the loop write location l? by the field or variable name it ends with"""
        last = l.split(".")[-1].split("[")[0]
        for i in L.body:
            e = self.B.nodes[i].ast
            if self.B.nodes[i].kind != "ev" or not self.writes(e):
                continue
            x = deep(e["a"] if e.get("k") == "Bin" else e["e"] if e.get("k") == "Un" else operands(e)[0])
            while x is not None:
                k = x.get("k")
                if k == "Member":
                    if x["f"] == last:
                        return True
                    break
                if k == "Ref":
                    if x.get("n", "").split("::")[-1] == last or "v:%s" % x.get("id") == last or "*" in x.get("t", "") or "&" in self.types.get(x.get("id"), ""):
                        return True
                    break
                if k == "Index":
                    x = deep(x["base"])
                elif k == "Call" and operands(x):
                    x = deep(operands(x)[0])
                elif k == "Un":
                    x = deep(x["e"])
                else:
                    break
        return False

    def lambdacount(self, n, env):
        call = n.extra[1]
        a = operands(call)
        s = short(call)
        if s == "parallel_for" and len(a) >= 3:
            x, y = self.scalar(a[0], env), self.scalar(a[1], env)
            if x and y:
                env["#l|%s" % n.i] = ("R", x)
                return self.add(y, x, -1)
        if s == "parallel_for_each" or s == "for_each":
            v = self.val(a[0], env)
            if len(a) == 2:
                bl = self.obj(a[0], env)
                if bl is not None:
                    env["#r|%s" % n.i] = bl
                    return self.size(bl, env)
            elif len(a) == 3 and v is not None and v[0] == "L":
                w = self.val(a[1], env)
                if w is not None and w[0] == "L" and w[1] == v[1]:
                    env["#p|%s" % n.i] = v
                    return self.add(w[2] or self.num(0), v[2] or self.num(0), -1)
        return None

    def leaveloop(self, h, n, env, normal):
        L = self.loop[h]
        if normal:
            c = env.get("#c|%s" % h)
            # what the counter and the containers are worth now
            for v in L.ind:
                init = env.get("#i|%s|%s" % (h, v))
                if init is not None and c is not None and self.slot(v, env) in env:
                    env[self.slot(v, env)] = self.shift(init, self.mul(c, self.num(L.ind[v][0])))
            if c is not None:
                for i, e, o in L.touch:
                    b = self.obj(o, env)
                    init = env.get("#i|%s|#sz:%s" % (h, b))
                    if init is None:
                        continue
                    same = [x for x in L.touch if self.obj(x[2], env) == b and short(x[1]) not in ("reserve", "shrink_to_fit")]
                    if len(same) == 1 and short(e) in ("push_back", "emplace_back") and loops.loops_of(self.B, i)[:1] == [h]:
                        r = loops.reach_from(self.B, [s for s, l in self.B.nodes[h].succ if s in L.body], stop=(i,))
                        if not any(p in r for p in loops.preds(self.B).get(h, ()) if p in L.body):
                            env["#sz:" + b] = self.add(init[1], c)
            eff = ("loop", h, env.get("#s|%s" % h) or "?")
        else:
            self.record(h, env, "left", n)
            eff = ("left", h, env.get("#s|%s" % h) or "?")
        self.clear(h, env)
        for k in [k for k in env if k.split("|")[0] in ("#i", "#s", "#c", "#r", "#p", "#l") and k.split("|")[1] == str(h)]:
            del env[k]
        self.effect(n, env, eff, self.outer(h))

    def step(self, n, s, lab):
        if lab == "exc":
            return None
        env = dict(s)
        i = n.i
        if n.kind == "ev" and n.ast is not None:
            self.event(n, env)
        outs = [env]
        if n.kind == "br" and lab in (True, False):
            outs = self.split_cond(n, n.ast, lab, env)
        if lab in ("throw", "noreturn"):
            return None
        targets = [t for t, l in n.succ if l == lab]
        res = []
        for env in outs:
            # which loops does this edge leave or re-enter? (all targets with this label agree)
            t = targets[0] if targets else None
            if t is not None and t not in self.live:
                continue
            if t is not None:
                tl = set(self.ctxof[t])
                for h in self.ctxof[i]:
                    if h not in tl:
                        L = self.loop[h]
                        normal = n.i == h and lab == "done" or L.exit is not None and n.i == L.exit.i
                        self.leaveloop(h, n, env, normal)
                if self.B.nodes[t].kind == "loop" and t in self.loop and self.loop[t].body:
                    if i in self.loop[t].body:
                        self.record(t, env, "next", n)
                        self.clear(t, env)
                        self.enterloop(self.B.nodes[t], env, False)
                    else:
                        self.enterloop(self.B.nodes[t], env, True)
            res.append(frozenset(env.items()))
        return res or None

    def split_cond(self, n, e, pol, env, depth=0):
        e = strip(e)
        while e.get("k") == "Un" and e["op"] == "!":
            e, pol = strip(e["e"]), not pol
        if e.get("k") == "Bin" and e["op"] in ("&&", "||") and depth < 5:
            if (e["op"] == "&&") == pol:
                return [w for v in self.split_cond(n, e["a"], pol, env, depth + 1) for w in self.split_cond(n, e["b"], pol, v, depth + 1)]
            r = self.split_cond(n, e["a"], pol, dict(env), depth + 1)
            for v in self.split_cond(n, e["a"], not pol, dict(env), depth + 1):
                r += self.split_cond(n, e["b"], pol, v, depth + 1)
            return r
        h = self.ctx(n)
        own = h != "F" and self.loop[h].exit is not None and n.i == self.loop[h].exit.i
        if own:
            return [env]
        r = self.truth(e, env)
        if r is None:
            return [env]
        a, p = r
        want = p == pol
        if a == "true":
            return [env] if want else []
        f = self.assume(a)
        if f is not None:
            return [env] if f == want else []
        for k in [h] + [x for x in self.ctxof[n.i] if x != h] + ["F"]:
            v = env.get("#A|%s|%s" % (k, a))
            if v is not None:
                return [env] if v == want else []
        env["#A|%s|%s" % (h, a)] = want
        return [env]

    def rootname(self, x, depth=0):
        i = x.get("id")
        if i in self.roots:
            return [(self.roots[i], "")]
        r = [y for z in self.inits.get(i, ())[:4] for y in roots_of(z, self.rootname, depth + 2)]
        if not r and i is not None and not isptr(self.types.get(i, "")):
            r = [("v:%s" % i, "")]
        return r

    def callmods(self, n):
        """normalised places a call that is not expanded may write"""
        if n.i in self.kmods:
            return self.kmods[n.i]
        e, P = n.ast, getattr(self.B, "P", None)
        c = callargs(P, e) if P is not None and e is not None and e.get("k") == "Call" else None
        out = set()
        if c is not None:
            g, ob, pa = c
            for r, p in mods(P, e["fn"]):
                if type(r) is int:
                    b = roots_of(pa[r][1], self.rootname) if r < len(pa) else []
                elif r == "this":
                    b = roots_of(ob, self.rootname) if ob is not None else [("this", "")]
                else:
                    b = [(r[2:], "")]
                for r2, p2 in b:
                    q = (r2[2:] if r2.startswith("g:") else r2) + p2 + p
                    if set(re.findall(r"[A-Za-z_]\w*", q)) & self.mentioned:
                        out.add(q)
        out = {q for q in out if not any(q != z and within(q, z) for z in out)}
        self.kmods[n.i] = frozenset(out)
        return self.kmods[n.i]

    def forget(self, key, pats, env):
        if not pats:
            return
        for k in [k for k in env if k[:1] == "@" or k.startswith("#sz:")]:
            l = norm(k[1:] if k[0] == "@" else k[4:])
            if any(within(l, p) or k[0] == "@" and within(p, l) for p in pats):
                del env[k]
        self.gens[key] = pats
        env["#k"] = tuple(x for x in env.get("#k", ()) if x != key) + (key,)

    def version(self, l, env, size=False):
        """which unexpanded call last may have written the place"""
        ks = env.get("#k")
        if not ks:
            return ""
        l = norm(l)
        for k in reversed(ks):
            if any(within(l, p) for p in self.gens[k]):
                return "@%s" % k
        return ""

    def clobber(self, n, env):
        """a call that is not expanded: what it may write is no longer known"""
        self.forget("%d" % n.i, self.callmods(n), env)

    def event(self, n, env):
        e = n.ast
        eff = self.track(n, self, env)
        if eff is not None:
            self.effect(n, env, eff)
        k = e.get("k")
        if k == "Var":
            t = e["t"]
            i = deep(e["init"]) if e.get("init") is not None else None
            if i is not None and self.fresh(e):
                env.pop(e["id"], None)
                for x in [x for x in env if x.startswith(("@v:%s" % e["id"], "#sz:v:%s" % e["id"]))]:
                    del env[x]
                return
            if i is None or i.get("k") in ("Construct", "Init", "Zero") and not i.get("args") and not i.get("c"):
                env.pop(e["id"], None)
                if "vector<" in t or "string" in t:
                    env["#sz:v:%s" % e["id"]] = self.num(0)
                if i is None:
                    return
            if t.endswith("&"):
                l = self.loc(e["init"], env)
                if l is not None:
                    a = self.addr(l)
                    # keep the offset formula of the element
                    env[e["id"]] = ("L", l, None, "alias")
                    return
                v = self.val(e["init"], env)
                self.setvar(env, e["id"], v, n)
                return
            v = self.val(e["init"], env)
            if isptr(t) and v is not None and v[0] == "R" and self.constval(v[1]) is None:
                l = self.loc(e["init"], env)
                i = deep(e["init"])
                if l is None and i.get("k") == "Call" and short(i).startswith("get_") and len(operands(i)) == 1:
                    l = self.plain(v[1])  # an accessor gives the same part of the same object every time
                v = ("L", l, None) if l is not None else v
            if v is not None and v[0] == "R" and not isint(t) and not isptr(t) and "float" not in t and "double" not in t and "bool" not in t:
                l = self.loc(e["init"], env)
                if l is not None and not l.startswith("?"):
                    if e["id"] in self.own:
                        me = "v:%s" % e["id"]
                        env.pop(e["id"], None)
                        for x in [x for x in env if x.startswith("@" + me)]:
                            del env[x]
                        for x in [x for x in env if x.startswith(("@%s." % l, "@%s[" % l))]:
                            env["@" + me + x[1 + len(l):]] = env[x]
                        env["#cp:" + me] = l
                        self.effect(n, env, ("objcopy", me, l))
                        return
                    env[e["id"]] = ("L", l, None, "alias")  # a copy of an object reads like the object
                    return
            self.setvar(env, e["id"], v, n)
        elif k in ("RVar", "LParam"):
            h = self.ctx(n)
            sy = env.get("#s|%s" % h)
            if k == "LParam" and env.get("#l|%s" % h) is not None and sy:
                env[e["id"]] = self.shift(env["#l|%s" % h], self.at_(sy))
            elif k == "LParam" and env.get("#p|%s" % h) is not None and sy:
                env[e["id"]] = ("L", self.deref(self.shift(env["#p|%s" % h], self.at_(sy))), None, "alias")
            elif env.get("#r|%s" % h) is not None and sy:
                l = self.elem(env["#r|%s" % h], self.at_(sy))
                if isptr(e["t"].replace("const", "").strip()):
                    env[e["id"]] = self.load(l, env, e["t"])
                elif e["t"].endswith("&") or not isint(e["t"]):
                    env[e["id"]] = ("L", l, None, "alias")
                else:
                    env[e["id"]] = self.load(l, env, e["t"])
            else:
                env[e["id"]] = ("R", self.at_("?%s" % e["id"]))
        elif k == "Bin" and e["op"] == "=" or k == "Call" and e.get("op") == "=" and len(operands(e)) == 2:
            a, b = (e["a"], e["b"]) if k == "Bin" else operands(e)
            self.store(a, self.val(b, env), env, n)
        elif (k == "Bin" or k == "Call" and len(operands(e)) == 2) and e.get("op", "").endswith("=") and e["op"] not in CMP:
            a, b = (e["a"], e["b"]) if k == "Bin" else operands(e)
            x, y = self.val(a, env), self.val(b, env)
            v = None
            if x is not None and y is not None and y[0] == "R" and e["op"] in ("+=", "-="):
                v = self.shift(x, y[1] if e["op"] == "+=" else self.mul(y[1], self.num(-1)))
            elif x is not None and y is not None and x[0] == y[0] == "R":
                op = e["op"][:-1]
                v = self.val({"k": "Bin", "op": op, "a": a, "b": b, "t": deep(a).get("t", "")}, env)
            self.store(a, v, env, n)
        elif k == "Un" and ("++" in e["op"] or "--" in e["op"]) or k == "Call" and e.get("op") in ("++", "--"):
            a = e["e"] if k == "Un" else operands(e)[0]
            x = self.val(a, env)
            self.store(a, x and self.shift(x, self.num(1 if "++" in e["op"] else -1)), env, n)
        elif k == "Call" and e.get("obj") is not None and short(e) in self.MUT:
            b = self.obj(e["obj"], env)
            if b is not None:
                self.mutate(n, e, b, env)
        elif k == "Call" and short(e) in ("copy", "copy_n", "transform", "move") and len(operands(e)) == 3:
            o = operands(e)
            d = deep(o[2])
            if d.get("k") == "Call" and short(d) == "back_inserter":
                b = self.obj(operands(d)[0], env)
                if b is not None:
                    x, y = self.ptr(o[0], env), self.ptr(o[1], env)
                    s = self.size(b, env)
                    if x and y and x[1] == y[1]:
                        env["#sz:" + b] = self.add(s, self.add(y[2] or self.num(0), x[2] or self.num(0), -1))
                    else:
                        env["#sz:" + b] = self.at_("%s.size()@%d" % (b, n.i))
        elif k == "Call":
            self.clobber(n, env)
            for x in operands(e):
                d = deep(x)
                if d.get("k") == "Call" and short(d) == "back_inserter":
                    b = self.obj(operands(d)[0], env)
                    if b is not None:
                        env["#sz:" + b] = self.at_("%s.size()@%d" % (b, n.i))

    def fresh(self, e):
        """a class object built from something that is not an object of its own type"""
        bare = lambda t: t.replace("const ", "").replace("struct ", "").replace("class ", "").replace("&", "").strip()
        t = bare(e["t"])
        if e["t"].endswith("&") or isint(t) or isptr(t) or t in ("float", "double", "vec_t"):
            return False
        x = strip(e["init"])
        while x is not None and x.get("k") == "Init" and len(x.get("c") or x.get("args") or ()) == 1:
            x = strip((x.get("c") or x.get("args"))[0])
        if x is None or x.get("k") != "Construct" or not x.get("args"):
            return False
        return bare(deep(x["args"][0]).get("t", "")) != t and "terator" not in t

    def mutate(self, n, e, b, env):
        s = short(e)
        a = e.get("args", ())
        cur = self.size(b, env)
        new = self.at_("%s.size()@%d" % (b, n.i))
        if s in ("reserve", "shrink_to_fit"):
            return
        if s == "fill":
            for k in [k for k in env if k.startswith(b + "[")]:
                env.pop(k)
            return
        if s in ("push_back", "emplace_back"):
            new = self.add(cur, self.num(1))
        elif s == "pop_back":
            new = self.add(cur, self.num(1), -1)
        elif s == "clear":
            new = self.num(0)
        elif s in ("resize", "assign") and a:
            x = self.val(a[0], env)
            if x is not None and x[0] == "R":
                new = x[1]
            elif x is not None and len(a) == 2:
                y = self.val(a[1], env)
                if y is not None and y[0] == x[0] == "L" and y[1] == x[1]:
                    new = self.add(y[2] or self.num(0), x[2] or self.num(0), -1)
        elif s in ("insert",) and len(a) == 3:
            x, y = self.ptr(a[1], env), self.ptr(a[2], env)
            if x and y and x[1] == y[1]:
                new = self.add(cur, self.add(y[2] or self.num(0), x[2] or self.num(0), -1))
        env["#sz:" + b] = new

    def store(self, a, v, env, n):
        x = deep(a)
        if x.get("k") == "Ref" and x.get("id") is not None and x["id"] not in self.roots and not self.types.get(x["id"], "").endswith("&") and x.get("dk") != "global":
            cur = env.get(x["id"])
            if not (cur is not None and cur[-1] == "alias"):
                self.setvar(env, x["id"], v, n)
                return
        l = self.loc(a, env)
        if l is not None:
            if v is None:
                v = ("R", self.at_("?%s@%d" % (l, n.i)))
            self.assign(env, l, v)


def strlit(e):
    """the text of an argument that is nothing but a string constant"""
    e = strip(e) if e is not None else None
    while e is not None:
        k = e.get("k")
        if k == "Str":
            return '"%s"' % e.get("v", "")
        if k == "Cast":
            e = e["e"]
        elif k in ("Construct", "Init") and (e.get("args") or e.get("c")):
            e = [x for x in (e.get("args") or e.get("c")) if x.get("k") not in ("DefaultArg",)][0]
        elif k in ("Paren", "Temp", "Bind", "Clean"):
            e = e.get("e")
        else:
            return None
    return None


def isstr(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t.startswith(("std::basic_string<", "std::string", "std::__cxx11::basic_string<", "std::basic_string_view<", "std::string_view")) or t == "string"


def fmtpieces(text, args):
    """pieces of a format string: constant text and, for a bare placeholder, the pieces of its argument"""
    out, i, nxt = [], 0, 0
    lit = ""
    while i < len(text):
        c = text[i]
        if c in "{}" and text[i:i + 2] in ("{{", "}}"):
            lit += c
            i += 2
        elif c == "{":
            j = text.find("}", i)
            spec = text[i + 1:j]
            if lit:
                out.append('"%s"' % lit)
                lit = ""
            k = int(spec) if spec.isdigit() else nxt
            nxt += 1
            a = args[k] if k < len(args) else ["?"]
            out += a if spec == "" or spec.isdigit() else ["?{%s}" % spec]
            i = j + 1
        else:
            lit += c
            i += 1
    return out + (['"%s"' % lit] if lit else [])


def pieces(S, e, env, depth=0, bind=None):
    """the text an expression stands for: a list of constant text ('"..."') and places of strings"""
    l = strlit(e)
    if l is not None:
        return [l]
    x = deep(e)
    c = cfg.cval(e)
    if c is None and x is not None:
        c = cfg.cval(x)
    if type(c) is int and 0 <= c < 128 and "char" in x.get("t", "") + e.get("t", ""):
        return ['"%s"' % chr(c)]
    if x is None:
        return ["?"]
    if x.get("k") == "Ref" and bind and x.get("id") in bind:
        return bind[x["id"]]
    if x.get("k") == "Construct" and len([a for a in x.get("args", ()) if a.get("k") != "DefaultArg"]) == 1 and isstr(x.get("cls", "")):
        return pieces(S, x["args"][0], env, depth, bind)
    if x.get("k") == "Call":
        s, o = short(x), operands(x)
        if x.get("op") == "+" and len(o) == 2:
            return pieces(S, o[0], env, depth, bind) + pieces(S, o[1], env, depth, bind)
        if s in ("c_str", "data", "str", "move", "as_const", "forward", "operator basic_string_view", "string") and len(o) == 1:
            return pieces(S, o[0], env, depth, bind)
        if s in ("format", "print", "format_to") and o:
            if s == "format_to":
                o = o[1:]
            f = strlit(o[0])
            if f is not None:
                return fmtpieces(f[1:-1], [pieces(S, a, env, depth, bind) for a in o[1:]])
        g = S.P.fns.get(x.get("fn"))
        if g is not None and depth < 3 and not x.get("virt"):
            b = list(model.kids(g["body"]))
            if len(b) == 1 and b[0].get("k") == "Return" and b[0].get("e") is not None:
                ca = callargs(S.P, x)
                if ca is not None:
                    return pieces(S, b[0]["e"], env, depth + 1, {p["id"]: pieces(S, a, env, depth, bind) for p, a in ca[2]})
    if bind:
        if x.get("k") == "Member" and deep(x["base"]).get("id") in bind:
            q = bind[deep(x["base"])["id"]]
            return [q[0] + "." + x["f"]] if len(q) == 1 and q[0][0] not in '"?' else ["?"]
        return ["?"]
    l = S.loc(x, env)
    return [l if l else "?"]


def textof(S, e, env):
    """("text", destination, piece...) of an expression that adds text at the end of a string or a stream"""
    if e.get("k") != "Call":
        return None
    s, o = short(e), operands(e)
    if s == "format_to" and len(o) >= 2:
        d = deep(o[0])
        if d.get("k") == "Call" and short(d) == "back_inserter":
            return ("text", S.obj(operands(d)[0], env) or "?") + tuple(pieces(S, e, env))
        return ("text", "?")
    if not o or not (isstr(deep(o[0]).get("t", "")) or "stream" in deep(o[0]).get("t", "")):
        return None
    d = S.obj(o[0], env) or "?"
    if isstr(deep(o[0]).get("t", "")):
        if e.get("op") == "+=" and len(o) == 2 or s in ("append", "push_back") and len(o) == 2:
            return ("text", d) + tuple(pieces(S, o[1], env))
        if s == "append" and len(o) == 3 and e.get("obj") is not None:
            a, b = deep(o[1]), deep(o[2])
            if all(y.get("k") == "Call" and short(y) in ("begin", "cbegin", "end", "cend") for y in (a, b)) and operands(a) and S.obj(operands(a)[0], env) == S.obj(operands(b)[0], env):
                return ("text", d, S.obj(operands(a)[0], env) or "?")
        if e.get("op") == "=" and len(o) == 2:
            p = pieces(S, o[1], env)
            return ("settext", d) + (tuple(p[1:]) if p[0] == d and len(p) > 1 and False else tuple(p))
        return None
    if e.get("op") == "<<" and len(o) == 2 or s in ("write", "put") and len(o) >= 2:
        root = deep(o[0])
        while root.get("k") == "Call" and root.get("op") == "<<":
            root = deep(operands(root)[0])
        return ("text", S.obj(root, env) or "?") + tuple(pieces(S, o[1], env))
    return None


def summary(P, f, inline=(), assume=None, calls=(), roots=None, val=None, depth=3, drop=None, limit=300000, text=False):
    """Summary of one function with the functions named in inline expanded. Effects recorded: ("=", place, value) and ("|=", place, value)
    for memory, ("let", variable, value) for scalar locals, ("call", name, operand...) for the named calls, ("append", container, source,
    first, count, size before) for whole-range appends, ("empty", container)."""
    names = set(inline)
    B = cfg.Builder(P, inline=lambda fn, c, d: short(fn) in names or fn["n"] in names, max_depth=depth).build(f)

    def track(n, S, env):
        e = n.ast
        k = e.get("k")
        if text:
            if k == "Var" and e.get("init") is not None and isstr(e["t"]) and not e["t"].endswith("&"):
                i = deep(e["init"])
                if i.get("k") == "Construct" and not [a for a in i.get("args", ()) if a.get("k") != "DefaultArg"]:
                    return ("settext", "v:%s" % e["id"])
                return ("settext", "v:%s" % e["id"]) + tuple(pieces(S, e["init"], env))
            t = textof(S, e, env)
            if t is not None:
                return t
        if k == "Var" and e.get("init") is not None and isint(e["t"]) and "&" not in e["t"]:
            s = S.scalar(e["init"], env)
            return ("let", "v:%s" % e["id"], S.plain(s) if s else "?")
        if k == "Var" and e.get("init") is not None and isptr(e["t"]):
            s = S.scalar(e["init"], env)
            if s is not None:
                return ("let", "v:%s" % e["id"], S.plain(s))
        if k == "Return" and e.get("e") is not None:
            s = S.scalar(e["e"], env)
            return ("return", S.plain(s) if s else S.loc(e["e"], env) or "?")
        op = e.get("op", "") if k in ("Bin", "Call") else ""
        if k == "Un" and ("++" in e["op"] or "--" in e["op"]):
            l = S.loc(e["e"], env)
            v = S.scalar(e["e"], env)
            if v is None or l is None:
                return None
            x = deep(e["e"])
            return ("let" if x.get("k") == "Ref" and l == "v:%s" % x.get("id") else "=", l, S.plain(S.add(v, S.num(1), 1 if "++" in e["op"] else -1)))
        if op.endswith("=") and op not in CMP and (k == "Bin" or len(operands(e)) == 2):
            a, b = (e["a"], e["b"]) if k == "Bin" else operands(e)
            l = S.loc(a, env)
            if l is None:
                l = "?"
            if op == "=":
                v = S.scalar(b, env)
            else:
                v = S.scalar({"k": "Bin", "op": op[:-1], "a": a, "b": b, "t": deep(a).get("t", "")}, env)
            v = S.plain(v) if v else "?"
            x = deep(a)
            if x.get("k") == "Ref" and x.get("id") is not None and l == "v:%s" % x["id"] and not S.types.get(x["id"], "").endswith("&"):
                return ("let", l, v)
            cur = env.get("@" + l)
            cur = S.plain(cur[1]) if cur is not None and cur[0] == "R" else l
            if v.startswith("or(") and v.endswith(")"):
                p = S.split(v[3:-1])
                for q in (l, cur):
                    if len(p) == 2 and q in p:
                        return ("|=", l, p[1] if p[0] == q else p[0])
            return ("=", l, v)
        if k != "Call":
            return None
        s, o = short(e), operands(e)
        if s in ("copy", "move", "transform") and len(o) == 3:
            d = deep(o[2])
            x, y = S.ptr(o[0], env), S.ptr(o[1], env)
            if d.get("k") == "Call" and short(d) == "back_inserter":
                b = S.obj(operands(d)[0], env) or "?"
                if x and y and x[1] == y[1]:
                    return ("append", b, x[1], S.plain(x[2] or S.num(0)), S.plain(S.add(y[2] or S.num(0), x[2] or S.num(0), -1)), S.plain(S.size(b, env)))
                return ("append", b, "?", "?", "?", S.plain(S.size(b, env)))
            z = S.ptr(o[2], env)
            if x and y and z and x[1] == y[1]:
                return ("copy", z[1], S.plain(z[2] or S.num(0)), x[1], S.plain(x[2] or S.num(0)), S.plain(S.add(y[2] or S.num(0), x[2] or S.num(0), -1)))
            return ("copy", "?")
        if e.get("obj") is not None and s in S.MUT:
            b = S.obj(e["obj"], env) or "?"
            a = e.get("args", ())
            if s == "insert" and len(a) == 3:
                x, y, z = S.ptr(a[1], env), S.ptr(a[2], env), S.ptr(a[0], env)
                if x and y and z and x[1] == y[1] and z[1] == b and z[2] == S.size(b, env):
                    return ("append", b, x[1], S.plain(x[2] or S.num(0)), S.plain(S.add(y[2] or S.num(0), x[2] or S.num(0), -1)), S.plain(S.size(b, env)))
                return ("mutate", s, b)
            if s == "clear" or s in ("resize", "assign") and a and S.constval(S.scalar(a[0], env) or "?") == 0:
                return ("empty", b)
            if s in ("push_back", "emplace_back"):
                return ("push", b, S.plain(S.size(b, env))) + tuple(S.plain(S.scalar(x, env) or "?") for x in a)
            if s in ("reserve", "shrink_to_fit"):
                return None
            return ("mutate", s, b) + tuple(strlit(x) or S.plain(S.scalar(x, env) or "?") for x in a)
        if s in calls:
            r = []
            for x in o:
                d = deep(x)
                if d.get("k") == "Call" and short(d) == "back_inserter":
                    b = S.obj(operands(d)[0], env) or "?"
                    r += [b, S.plain(S.size(b, env))]
                elif strlit(x):
                    r.append(strlit(x))
                else:
                    v = S.scalar(x, env)
                    r.append(S.plain(v) if v else S.loc(x, env) or "?")
            return ("call", s) + tuple(r)
        return None

    ps = {"0.%s" % p["id"]: "P%d" % i for i, p in enumerate(f["params"])}
    ps.update(roots or {})
    S = Sym(B, roots=ps, track=track, assume=assume, val=val, limit=limit, P=P, f=f)
    return S


def dump(S):
    for h, its in S.iters.items():
        print("==", h, S.B.nodes[h].where() if h != "F" else "")
        for g, e, how in sorted(its, key=repr):
            print("  ", how, sorted(g))
            for x in e:
                print("        ", x)
