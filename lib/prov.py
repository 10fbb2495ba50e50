"""Provenance dataflow: where does the value stored at a location come from, and
which operations did it pass through?  Flow-insensitive inside one inlined
function, field-sensitive, index-sensitive for literal indices."""
import cfg, model
from facts import base_type, INT_RANGE, FLOAT

PASS = {"move", "forward", "as_const", "ref", "cref", "get", "value", "operator*", "operator->", "data", "c_str", "begin", "cbegin",
        "native", "string"}
COPYISH = ("std::vector", "std::basic_string", "std::array", "std::optional", "std::variant", "std::map", "std::unordered_map", "qvec",
           "std::unique_ptr", "std::shared_ptr", "std::pair", "std::basic_string_view", "std::filesystem")


def fmtpath(p):
    s = str(p[0])
    for x in p[1:]:
        s += x if x.startswith("[") else "." + x
    return s


def imatch(a, b):
    """Do two path components match (indices: literal vs any)?"""
    if a == b:
        return True
    return a.startswith("[") and b.startswith("[") and (a[1] in "*$" or b[1] in "*$")


class Edge:
    __slots__ = ("dst", "src", "labels", "node")

    def __init__(self, dst, src, labels, node):
        self.dst, self.src, self.labels, self.node = dst, src, labels, node


class Prov:
    def __init__(self, P, fn, inline=None, depth=6, primitives=("numeric_cast",), max_nodes=60000):
        self.P = P
        self.prims = set(primitives)
        pol = lambda f, c, d: f["n"] not in self.prims and not f["n"].startswith(("logging::", "fmt::")) and (inline is None or inline(f, c, d))
        self.B = cfg.Builder(P, inline=pol, max_depth=depth, max_nodes=max_nodes).build(fn)
        self.fn = fn
        self.alias = {}
        self.edges = {}  # root -> [Edge]
        self.calls = []  # (node, call ast)
        self.reach = cfg.reachable(self.B)
        self.roots = {}
        for p in fn["params"]:
            self.roots[self.B.frame0.map[p["id"]]] = p["n"]
        evs = [n for n in self.B.nodes if n.i in self.reach and n.ast is not None and n.kind in ("ev", "br", "switch")]
        # variables that only ever hold one constant (inlined index arguments)
        self.const = {}
        bad = set()
        for n in evs:
            e = n.ast
            if e.get("k") == "Var" and e.get("init") is not None:
                v = cfg.cval(e["init"])
                s = model.strip(e["init"])
                if v is None and s.get("k") == "Ref":
                    v = self.const.get(s.get("id"))
                if isinstance(v, int) and e["id"] not in self.const and e["id"] not in bad:
                    self.const[e["id"]] = v
                else:
                    bad.add(e["id"])
            elif e.get("k") == "Var":
                bad.add(e["id"])
            elif e.get("k") == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
                bad.add(model.strip(e["a"]).get("id"))
            elif e.get("k") == "Un" and e["op"] in ("++", "--", "p++", "p--", "&"):
                bad.add(model.strip(e["e"]).get("id"))
        self.const = {k: v for k, v in self.const.items() if k not in bad}
        # aliases first (single pass in creation order; references are bound before use)
        for n in evs:
            e = n.ast
            k = e.get("k")
            if k == "Var" and e.get("init") is not None and (e["t"].endswith("&") or e.get("bind")):
                l = self.loc(e["init"])
                if l is not None:
                    self.alias[e["id"]] = l
            elif k == "Var" and e.get("init") is not None and e["t"].endswith("*"):
                l = self.loc(e["init"])
                if l is not None and l[0] != "v:" + e["id"] and e["id"] not in self.alias:
                    self.alias[e["id"]] = l
            elif k == "RVar":
                l = self.loc(e["range"])
                if l is not None:
                    self.alias[e["id"]] = l + ("[*]",)
            elif k == "LParam":
                c = e["call"]
                cand = [self.loc(a) for a in c.get("args", ()) if model.strip(a).get("k") != "Lambda"]
                cand = [x for x in cand if x is not None]
                if len(cand) == 1 and not self.islam(c):
                    self.alias[e["id"]] = cand[0]
        for n in evs:
            self.event(n)

    def islam(self, c):
        return False

    # ---- locations
    def loc(self, e):
        k = e.get("k")
        if k == "Ref":
            if e.get("dk") in ("global", "slocal"):
                return ("g:" + e["n"],)
            if "id" in e:
                if e["id"] in self.alias:
                    return self.alias[e["id"]]
                return ("v:" + e["id"],)
            return None
        if k == "This":
            return ("this",)
        if k == "Member":
            if "fn" in e:
                return None
            b = e.get("base")
            if b is None:
                return ("this", e["f"])
            l = self.loc(b)
            if l is None:
                return None
            if e.get("anon") or e["f"] == "_M_elems" or e["f"] == "v" and base_type(b.get("t", "")).replace("const ", "").startswith("qvec<"):
                return l
            return l + (e["f"],)
        if k == "Cast":
            if e.get("ck") in ("ArrayToPointerDecay", "BaseToDerived", "DerivedToBase", "UncheckedDerivedToBase", "BitCast", "NoOp"):
                return self.loc(e["e"])
            return None
        if k == "Index":
            l = self.loc(e["base"])
            return None if l is None else l + (self.idx(e["idx"]),)
        if k == "Un" and e["op"] in ("*", "&"):
            return self.loc(e["e"])
        if k == "Construct" and e.get("copy") and len(e.get("args", ())) == 1:
            return self.loc(e["args"][0])
        if k == "Call":
            m = e.get("n", "").split("::")[-1]
            a = e.get("args", ())
            if e.get("op") == "[]" and len(a) == 2:
                l = self.loc(a[0])
                return None if l is None else l + (self.idx(a[1]),)
            if e.get("op") in ("*", "->") and len(a) == 1:
                return self.loc(a[0])
            if m == "at" and e.get("obj") is not None and len(a) >= 1:
                l = self.loc(e["obj"])
                return None if l is None else l + tuple(self.idx(x) for x in a)
            if m in ("front", "back") and e.get("obj") is not None:
                l = self.loc(e["obj"])
                return None if l is None else l + ("[*]",)
            if m in ("emplace_back",) and not a and e.get("obj") is not None:
                l = self.loc(e["obj"])
                return None if l is None else l + ("[*]",)
            if m in ("emplace",) and not a and e.get("obj") is not None:
                return self.loc(e["obj"])
            if m in PASS:
                if e.get("obj") is not None and not a:
                    return self.loc(e["obj"])
                if e.get("obj") is None and len(a) == 1:
                    return self.loc(a[0])
        return None

    def idx(self, e):
        v = cfg.cval(e)
        if v is None and model.strip(e).get("k") == "Str":
            return '["%s"]' % model.strip(e).get("v", "")
        if v is None and e.get("k") == "Construct" and e.get("args"):
            return self.idx(e["args"][0])
        s = model.strip(e)
        if v is None and s.get("k") == "Ref" and s.get("id") in self.const:
            v = self.const[s["id"]]
        if isinstance(v, int):
            return "[%d]" % v
        return "[$%s]" % model.path(s).replace(" ", "")

    # ---- edges
    def add(self, dst, src, labels, node):
        di = sorted(x for x in dst[1:] if x.startswith("[$"))
        si = sorted(x for x in src[1:] if x.startswith("[$"))
        if di and si and di != si:
            labels = tuple(labels) + ("reindex:%s<-%s" % ("".join(di), "".join(si)),)
        self.edges.setdefault(dst[0], []).append(Edge(dst, src, frozenset(labels), node))

    def event(self, n):
        e = n.ast
        k = e.get("k")
        if k == "Var":
            if e["id"] in self.alias and (e["t"].endswith("&") or e.get("bind")):
                return
            if e.get("init") is not None:
                self.assign(("v:" + e["id"],), e["init"], (), n)
        elif k == "Return" and e.get("e") is not None:
            self.assign(("ret",), e["e"], (), n)
        elif k == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            d = self.loc(e["a"])
            if d is None:
                return
            if e["op"] == "=":
                self.assign(d, e["b"], (), n)
            else:
                self.assign(d, e["b"], ("arith:" + e["op"][:-1],), n)
        elif k == "Un" and e["op"] in ("++", "--", "p++", "p--"):
            d = self.loc(e["e"])
            if d is not None:
                self.add(d, ("#", "1"), ("arith:" + e["op"][-2:],), n)
        elif k == "Call":
            self.call(e, n)

    def call(self, e, n):
        m = e.get("n", "").split("::")[-1]
        a = e.get("args", ())
        o = e.get("obj")
        op = e.get("op")
        self.calls.append((n, e))
        if op == "=" and len(a) == 2:
            d = self.loc(a[0])
            if d is not None:
                self.assign(d, a[1], (), n)
            return
        if op in ("+=", "-=", "|=", "&=", "*=", "/=", "^=", "<<=", ">>=") and len(a) == 2:
            d = self.loc(a[0])
            if d is not None:
                self.assign(d, a[1], ("arith:" + op[:-1],), n)
            return
        if o is not None and m in ("push_back", "emplace_back", "push_front", "insert", "emplace", "insert_or_assign", "try_emplace", "assign") and a:
            d = self.loc(o)
            if d is None:
                return
            if m in ("push_back", "emplace_back", "push_front"):
                if len(a) == 1:
                    el = self.elem_type(o.get("t", ""))
                    lab = ()
                    if el and base_type(a[0].get("t", "")) != el:
                        lab = self.castlab(base_type(a[0].get("t", "")), el)
                    self.assign(d + ("[*]",), a[0], lab, n)
                else:
                    for i, x in enumerate(a):
                        self.assign(d + ("[*]", "[%d]" % i), x, ("ctorarg",), n)
            elif m in ("insert_or_assign", "try_emplace", "emplace") and len(a) == 2:
                self.assign(d + (self.idx(a[0]),), a[1], (), n)
            else:
                for x in a:
                    for s, l in self.leaves(x, ()):
                        self.add(d + ("[*]",), s, l, n)
            return
        # known transfer functions
        if m in ("copy", "copy_n", "move_backward", "transform") and len(a) >= 3:
            src = self.loc(a[0])
            dst = self.loc(a[2])
            if dst is None and a[2].get("k") == "Call" and a[2].get("args"):
                dst = self.loc(a[2]["args"][0])
            if dst is not None and src is not None:
                self.add(dst + ("[*]",), src + ("[*]",), () if m != "transform" else ("call:transform",), n)
            return
        if m in ("memcpy", "memmove") and len(a) == 3:
            d, s = self.loc(model.strip(a[0])), self.loc(model.strip(a[1]))
            if d is not None and s is not None:
                self.add(d, s, ("memcpy",), n)
            return
        if e.get("fn") and not e.get("n", "").startswith(("logging::", "fmt::")):
            mp = e.get("mp", ())
            aa = list(a)
            if op and e.get("m") in (1, 2) and len(aa) == len(mp) + 1:
                aa = aa[1:]
            for i, x in enumerate(aa):
                if i < len(mp) and mp[i] in (1, 3):
                    d = self.loc(x)
                    if d is None:
                        continue
                    for j, y in enumerate(a):
                        if y is not x:
                            for s, l in self.leaves(y, ("call:" + m,)):
                                self.add(d, s, l, n)

    def elem_type(self, t):
        import re
        m = re.match(r"^(?:const )?std::(?:vector|deque|list)<(.*)>", base_type(t))
        if m:
            s = m.group(1)
            depth, cut = 0, len(s)
            for i, c in enumerate(s):
                if c == "<":
                    depth += 1
                elif c == ">":
                    depth -= 1
                elif c == "," and depth == 0:
                    cut = i
                    break
            return s[:cut].strip()
        return None

    def castlab(self, src, dst):
        if src in INT_RANGE and dst in INT_RANGE:
            (a, b), (c, d) = INT_RANGE[src], INT_RANGE[dst]
            if c <= a and b <= d:
                return ()
            if b - a == d - c:
                return ("sign",)
            return ("narrow:%s<-%s" % (dst, src),)
        if src in FLOAT and dst in INT_RANGE:
            return ("trunc",)
        if src in FLOAT and dst == "float" and src != "float":
            return ("narrow:float",)
        return ()

    def assign(self, dst, e, labels, n):
        k = e.get("k")
        if k == "Init":
            fs = e.get("fs")
            if fs:
                for f, c in zip(fs, e["c"]):
                    if c is not None:
                        self.assign(dst + ((f,) if f != "_M_elems" else ()), c, labels, n)
                for f in fs[len(e["c"]):]:
                    self.add(dst + (f,), ("#", "0"), ("default",), n)
                return
            if not e["c"]:
                self.add(dst, ("#", "0"), ("default",), n)
                return
            if len(e["c"]) == 1 and e["c"][0] and e["c"][0].get("k") == "Init":
                return self.assign(dst, e["c"][0], labels, n)
            for i, c in enumerate(e["c"]):
                if c is not None:
                    self.assign(dst + ("[%d]" % i,), c, labels, n)
            return
        if k == "Zero":
            self.add(dst, ("#", "0"), ("default",), n)
            return
        if k == "Construct":
            a = e.get("args", ())
            cls = e.get("cls", "")
            if not a:
                self.add(dst, ("#", "0"), ("default",), n)
                return
            if len(a) == 1 or e.get("copy"):
                lab = labels
                if not e.get("copy") and not cls.startswith(COPYISH) and e.get("fn") in self.P.fns:
                    lab = tuple(labels) + ("conv:" + cls,)
                return self.assign(dst, a[0], lab, n)
            if cls.startswith("qvec") or cls.startswith("std::array") or e.get("list"):
                for i, x in enumerate(a):
                    self.assign(dst + ("[%d]" % i,), x, labels, n)
                return
        if k == "Cast" and e.get("ck") in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase") and e["e"].get("k") in (
                "Init", "Construct"):
            return self.assign(dst, e["e"], labels, n)
        for s, l in self.leaves(e, tuple(labels)):
            self.add(dst, s, l, n)

    def leaves(self, e, labels):
        """[(source path, labels)] of an expression."""
        if e is None:
            return []
        l = self.loc(e)
        if l is not None:
            return [(l, labels)]
        k = e.get("k")
        if k in ("Int", "Float"):
            return [(("#", str(e["v"])), labels)]
        if k == "Str":
            return [(("#", '"%s"' % e.get("v", "")), labels)]
        if k in ("Null", "Zero"):
            return [(("#", "0"), labels)]
        if k == "Ref" and e.get("dk") == "enum":
            return [(("#", str(e.get("cv", e.get("n")))), labels)]
        if k == "Cast":
            lab = labels + self.castlab(base_type(e.get("from", "")), base_type(e.get("t", "")))
            if "cv" in e:
                return [(("#", str(e["cv"])), labels)]
            return self.leaves(e["e"], lab)
        if k == "Bin":
            if e["op"] in ("=",):
                return self.leaves(e["b"], labels)
            lab = labels + ("arith:" + e["op"],)
            return self.leaves(e["a"], lab) + self.leaves(e["b"], lab)
        if k == "Un":
            if e["op"] in ("*", "&", "+"):
                return self.leaves(e["e"], labels)
            return self.leaves(e["e"], labels + ("arith:" + e["op"],))
        if k == "Construct":
            a = e.get("args", ())
            cls = e.get("cls", "")
            if len(a) == 1 and (e.get("copy") or cls.startswith(COPYISH)):
                return self.leaves(a[0], labels)
            out = []
            for x in a:
                out += self.leaves(x, labels + ("conv:" + cls,))
            return out or [(("#", "0"), labels + ("default",))]
        if k == "Init":
            out = []
            for x in e["c"]:
                out += self.leaves(x, labels)
            return out or [(("#", "0"), labels + ("default",))]
        if k == "Call":
            m = e.get("n", "").split("::")[-1]
            a = e.get("args", ())
            o = e.get("obj")
            if e.get("n") in self.prims:
                return self.leaves(a[0], labels + ("prim:" + e["n"],))
            if m.startswith("operator ") and o is not None and not a:
                return self.leaves(o, labels + ("conv:" + m[9:],))
            if m in PASS and (o is not None or len(a) == 1):
                return self.leaves(o if o is not None else a[0], labels)
            out = []
            lab = labels + ("call:" + (m or "?"),)
            if e.get("op") and len(a) == 2 and e["op"] not in ("[]", "()"):
                lab = labels + ("arith:" + e["op"],)
            if o is not None:
                out += self.leaves(o, lab)
            for x in a:
                out += self.leaves(x, lab)
            return out or [(("#", m + "()"), lab)]
        if k == "Cond":
            return self.leaves(e["a"], labels) + self.leaves(e["b"], labels)
        if k == "Lambda":
            return []
        out = []
        for x in model.kids(e):
            out += self.leaves(x, labels + ("op:" + str(k),))
        return out

    # ---- queries
    def pname(self, p):
        r = p[0]
        if r.startswith("v:") and r[2:] in self.roots:
            r = self.roots[r[2:]]
        return (r,) + tuple("[*]" if x.startswith("[$") else x for x in p[1:])

    def isparam(self, p):
        return p[0] == "this" or p[0].startswith("g:") or p[0][2:] in self.roots or p[0] == "#"

    def query(self, dst, seen=None, top=True):
        """{(source path, labels)} for a location (sources are inputs or constants)."""
        seen = seen or frozenset()
        if dst in seen or len(seen) > 40:
            return set()
        seen = seen | {dst}
        out = set()
        hit = False
        for ed in self.edges.get(dst[0], ()):
            n = min(len(ed.dst), len(dst))
            if not all(imatch(a, b) for a, b in zip(ed.dst[:n], dst[:n])):
                continue
            if len(ed.dst) > len(dst):
                rest, ext = (), ed.dst[len(dst):]
            else:
                rest, ext = dst[len(ed.dst):], ()
            if ed.labels == frozenset(["default"]):
                continue
            hit = True
            src = ed.src
            lab = ed.labels
            if src[0] != "#":
                if rest and any(x.startswith(("conv:", "arith:", "call:")) for x in lab):
                    lab = lab | {"part"}
                    full = src
                else:
                    full = src + tuple(rest)
                if ext and any(True for _ in ext):
                    lab = lab | {"into" + "".join(("." + x) if not x.startswith("[") else ("[*]" if x.startswith("[$") else x) for x in ext)}
                if self.isparam(full) and not (full[0] == dst[0]):
                    sub = self.query(full, seen, False) if full[0] in self.edges and False else None
                    out.add((self.pname(full), lab))
                else:
                    r = self.query(full, seen, False)
                    if not r and self.isparam(full):
                        r = {(self.pname(full), frozenset())}
                    for s, l in r:
                        out.add((s, frozenset(x for x in (l | lab))))
            else:
                out.add((src, lab))
        if not hit and not top:
            d = [ed for ed in self.edges.get(dst[0], ()) if ed.labels == frozenset(["default"])]
            if d:
                out.add((("#", "0"), frozenset(["default"])))
            elif dst[0].startswith("v:") and not self.isparam(dst):
                out.add((("?", dst[0]), frozenset()))
        if not hit and top:
            for ed in self.edges.get(dst[0], ()):
                n = min(len(ed.dst), len(dst))
                if ed.labels == frozenset(["default"]) and len(ed.dst) <= len(dst) and ed.dst[:n] == dst[:n]:
                    out.add((("#", "0"), frozenset(["default"])))
        return out


def clean(labels):
    """Labels without container-shape bookkeeping."""
    return {x for x in labels if not x.startswith("into")}
