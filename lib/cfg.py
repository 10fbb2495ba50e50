"""Control-flow graphs over the program model, with inlining of first-party
callees (so that a helper extracted from a function, or folded back into it,
gives the same graph)."""
import model
from model import kids, walk

SCALAR = ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char",
          "unsigned char", "bool", "float", "double", "size_t")


class Node:
    __slots__ = ("i", "kind", "ast", "succ", "exc", "fn", "preds", "extra", "chain")

    def __init__(self, i, kind, ast, fn, chain):
        self.i = i
        self.kind = kind
        self.ast = ast
        self.succ = []  # (node index, label)
        self.exc = None
        self.fn = fn
        self.preds = None
        self.extra = None
        self.chain = chain

    def loc(self):
        l = (self.ast or {}).get("l")
        return "%s:%d" % (self.fn["f"], l if l else self.fn["l"])

    def where(self):
        s = "%s (%s)" % (self.loc(), self.fn["n"])
        for f, l in reversed(self.chain):
            s += " <- called at %s:%d (%s)" % (f["f"], l, f["n"])
        return s


class Frame:
    def __init__(self, no, fn, parent_lambda=None):
        self.no = no
        self.fn = fn
        self.map = {}  # local id -> replacement AST or new id
        self.this = None
        self.decl = None  # ids declared inside (lambda only)
        self.up = parent_lambda
        self.labels = {}


class TooBig(Exception):
    pass


class Builder:
    def __init__(self, P, inline=None, max_depth=5, max_nodes=60000, lambda_loops=True):
        self.P = P
        self.nodes = []
        self.inline = inline or (lambda fn, call, depth: True)
        self.max_depth = max_depth
        self.max_nodes = max_nodes
        self.nframes = 0
        self.lambdas = {}  # renamed var id -> Lambda node
        self.cur = None
        self.handlers = []
        self.scopes = []
        self.chain = []
        self.stack = []
        self.ntmp = 0
        self.inlined = set()
        self.notinlined = {}

    # -- node helpers
    def node(self, kind, ast=None):
        if len(self.nodes) >= self.max_nodes:
            raise TooBig()
        n = Node(len(self.nodes), kind, ast, self.stack[-1].fn, tuple(self.chain))
        self.nodes.append(n)
        return n

    def link(self, a, b, label=None):
        if a is not None:
            a.succ.append((b.i, label))

    def emit(self, kind, ast=None, extra=None):
        n = self.node(kind, ast)
        n.extra = extra
        if self.cur is not None:
            cur, lab = self.cur
            self.link(cur, n, lab)
            self.cur = (n, None)
            if kind == "ev" and ast is not None and ast.get("k") in ("Call", "Construct", "New", "Throw"):
                n.exc = self.handlers[-1].i
        return n

    def join(self):
        return self.node("join")

    def goto(self, target):
        if self.cur is not None:
            self.link(self.cur[0], target, self.cur[1])
        self.cur = None

    def at(self, n, label=None):
        self.cur = (n, label)

    def dead(self):
        return self.cur is None

    # -- build
    def build(self, fn):
        fr = self.frame(fn)
        for p in fn["params"]:
            fr.map[p["id"]] = "%d.%s" % (fr.no, p["id"])
        self.stack = [fr]
        self.entry = self.node("entry")
        self.exit = self.node("exit")
        self.excexit = self.node("excexit")
        self.handlers = [self.excexit]
        self.at(self.entry)
        self.rets = [("top", None)]
        self.scopes = [[]]
        self.ret_depth = [0]
        self.body(fn, fr)
        self.unwind(0)
        self.goto(self.exit)
        for n in self.nodes:
            n.preds = []
        for n in self.nodes:
            for s, l in n.succ:
                self.nodes[s].preds.append((n.i, l))
            if n.exc is not None:
                self.nodes[n.exc].preds.append((n.i, "exc"))
        self.fn = fn
        self.frame0 = fr
        return self

    def frame(self, fn, up=None):
        fr = Frame(self.nframes, fn, up)
        self.nframes += 1
        if up is not None:
            fr.decl = set(p["id"] for p in fn["params"])
            for x in walk(fn["body"]):
                if x.get("k") in ("Var", "Decomp"):
                    fr.decl.add(x["id"])
                    for b in x.get("b", ()):
                        fr.decl.add(b["id"])
                for h in x.get("h", ()) if x.get("k") == "Try" else ():
                    if "id" in h:
                        fr.decl.add(h["id"])
        return fr

    def rid(self, i, fr):
        f = fr
        while f.up is not None and f.decl is not None and i not in f.decl:
            f = f.up
        v = f.map.get(i)
        if v is None:
            v = f.map[i] = "%d.%s" % (f.no, i)
        return v

    def body(self, fn, fr):
        for i in fn.get("inits", ()):
            if i.get("e") is None:
                continue
            e = self.expr(i["e"], fr)
            if "f" in i:
                m = {"k": "Member", "f": i["f"], "cls": fn.get("cls"), "base": self.this(fr), "arrow": 1, "l": i.get("l"),
                     "t": e.get("t", "?")}
                self.emit("ev", {"k": "Bin", "op": "=", "a": m, "b": e, "l": i.get("l"), "t": e.get("t", "?"), "ctorinit": 1})
        if fn.get("body"):
            self.stmt(fn["body"], fr)

    def this(self, fr):
        f = fr
        while f.up is not None:
            f = f.up
        return f.this or {"k": "This", "t": (f.fn.get("cls") or "?") + " *"}

    # scopes
    def unwind(self, depth):
        for sc in reversed(self.scopes[depth:]):
            for v in reversed(sc):
                if self.cur is not None:
                    self.emit("ev", {"k": "ScopeEnd", "id": v["id"], "n": v["n"], "t": v["t"], "l": v.get("l")})

    def declare(self, v):
        t = v.get("t", "")
        if t in SCALAR or t.endswith("*") or t.endswith("&"):
            return
        self.scopes[-1].append(v)

    # -- statements
    def stmt(self, s, fr):
        if s is None:
            return
        k = s["k"]
        if self.cur is None and k not in ("Label", "Case", "Default", "Compound"):
            # unreachable; still look for labels / cases inside
            if not any(x.get("k") in ("Label", "Case", "Default") for x in walk(s)):
                return
        m = getattr(self, "st_" + k, None)
        if m:
            m(s, fr)
        elif k.startswith("S:"):
            for c in s.get("c", ()):
                self.stmt(c, fr)
        else:
            self.expr(s, fr, discard=True)

    def st_Compound(self, s, fr):
        self.scopes.append([])
        for c in s["c"]:
            self.stmt(c, fr)
        self.unwind(len(self.scopes) - 1)
        self.scopes.pop()

    def st_Decl(self, s, fr):
        for v in s["c"]:
            self.var(v, fr)

    def var(self, v, fr):
        init = v.get("init")
        nid = self.rid(v["id"], fr)
        if init is not None:
            e = self.expr(init, fr)
        else:
            e = None
        w = {"k": "Var", "id": nid, "n": v["n"], "t": v["t"], "l": v.get("l")}
        if v.get("static"):
            w["static"] = 1
            w["gk"] = v.get("gk")
        if e is not None:
            w["init"] = e
            lam = self.find_lambda(e)
            if lam is not None:
                self.lambdas[nid] = lam
        # a reference bound to a pure lvalue path is an alias: substitute
        if e is not None and v["t"].endswith("&") and v["k"] == "Var" and self.is_path(e) and not v["t"].endswith("&&"):
            fr2 = fr
            while fr2.up is not None and fr2.decl is not None and v["id"] not in fr2.decl:
                fr2 = fr2.up
            w["alias"] = 1
        self.emit("ev", w)
        if v["k"] == "Decomp":
            for i, b in enumerate(v.get("b", ())):
                self.pairpart(v, i, b, nid, fr)
                bid = self.rid(b["id"], fr)
                bw = {"k": "Var", "id": bid, "n": b["n"], "t": b["t"], "l": v.get("l"), "bind": 1}
                if e is not None and b.get("e"):
                    be = self.clone(b["e"], fr)
                    bw["init"] = be
                self.emit("ev", bw)
        self.declare({"id": nid, "n": v["n"], "t": v["t"], "l": v.get("l")})
        return w

    def pairpart(self, v, i, b, nid, fr):
        """the variable behind a structured binding of a pair is a reference to the pair's first or second"""
        e = b.get("e")
        t = v["t"].replace("const ", "").strip(" &")
        if i > 1 or not t.startswith("std::pair<") or not e or e.get("k") != "Ref" or e.get("id") in (None, b["id"]):
            return
        base = {"k": "Ref", "id": nid, "n": v["n"], "dk": "var", "t": v["t"].rstrip("& "), "l": v.get("l")}
        self.emit("ev", {"k": "Var", "id": self.rid(e["id"], fr), "n": b["n"], "t": b["t"] + " &", "l": v.get("l"), "bind": 1, "alias": 1,
                         "init": {"k": "Member", "f": ("first", "second")[i], "cls": t, "base": base, "t": b["t"], "l": v.get("l")}})

    def is_path(self, e):
        k = e.get("k")
        if k in ("Ref", "This"):
            return True
        if k == "Member":
            return e.get("base") is None or self.is_path(e["base"])
        if k == "Index":
            return self.is_path(e["base"]) and e["idx"].get("k") in ("Int", "Ref")
        if k == "Un" and e["op"] == "*":
            return self.is_path(e["e"])
        if k == "Cast":
            return self.is_path(e["e"])
        return False

    def st_If(self, s, fr):
        self.scopes.append([])
        if s.get("init"):
            self.stmt(s["init"], fr)
        T, F, J = self.join(), self.join(), self.join()
        if s.get("cvar"):
            w = self.var(s["cvar"], fr)
        if s.get("cx") and "cv" in s["cond"]:
            self.goto(T if s["cond"]["cv"] else F)
        else:
            self.cond(s["cond"], fr, T, F)
        self.at(T)
        self.stmt(s["then"], fr)
        self.goto(J)
        self.at(F)
        if s.get("else"):
            self.stmt(s["else"], fr)
        self.goto(J)
        self.reach(J)
        self.unwind(len(self.scopes) - 1)
        self.scopes.pop()

    def reach(self, J):
        self.at(J)

    def loop(self, fr, head, brk, cont, bodyfn):
        self.breaks.append((brk, len(self.scopes)))
        self.conts.append((cont, len(self.scopes)))
        bodyfn()
        self.breaks.pop()
        self.conts.pop()

    breaks = None
    conts = None

    def _ensure(self):
        if self.breaks is None:
            self.breaks, self.conts = [], []

    def st_While(self, s, fr):
        self._ensure()
        H, B, X = self.node("loop", s), self.join(), self.join()
        self.goto(H)
        self.at(H)
        self.scopes.append([])
        if s.get("cvar"):
            self.var(s["cvar"], fr)
        self.cond(s["cond"], fr, B, X)
        self.at(B)
        self.loop(fr, H, X, H, lambda: self.stmt(s["body"], fr))
        self.unwind(len(self.scopes) - 1)
        self.scopes.pop()
        self.goto(H)
        self.at(X)

    def st_Do(self, s, fr):
        self._ensure()
        H, C, X = self.node("loop", s), self.join(), self.join()
        self.goto(H)
        self.at(H)
        self.loop(fr, H, X, C, lambda: self.stmt(s["body"], fr))
        self.goto(C)
        self.at(C)
        self.cond(s["cond"], fr, H, X)
        self.at(X)

    def st_For(self, s, fr):
        self._ensure()
        self.scopes.append([])
        if s.get("init"):
            self.stmt(s["init"], fr)
        H, B, C, X = self.node("loop", s), self.join(), self.join(), self.join()
        self.goto(H)
        self.at(H)
        if s.get("cond"):
            self.cond(s["cond"], fr, B, X)
        else:
            self.goto(B)
        self.at(B)
        self.loop(fr, H, X, C, lambda: self.stmt(s["body"], fr))
        self.goto(C)
        self.at(C)
        if s.get("inc"):
            self.expr(s["inc"], fr, discard=True)
        self.goto(H)
        self.at(X)
        self.unwind(len(self.scopes) - 1)
        self.scopes.pop()

    def st_RFor(self, s, fr):
        self._ensure()
        self.scopes.append([])
        if s.get("init"):
            self.stmt(s["init"], fr)
        rng = self.expr(s["range"], fr)
        v = s["var"]
        nid = self.rid(v["id"], fr)
        H, B, X = self.node("loop", s), self.join(), self.join()
        H.extra = ("rfor", nid, rng)
        self.goto(H)
        self.link(H, B, "iter")
        self.link(H, X, "done")
        self.at(B)
        w = {"k": "RVar", "id": nid, "n": v["n"], "t": v["t"], "range": rng, "l": s.get("l")}
        self.emit("ev", w)
        if v["k"] == "Decomp":
            for i, b in enumerate(v.get("b", ())):
                self.pairpart(v, i, b, nid, fr)
                bid = self.rid(b["id"], fr)
                bw = {"k": "Var", "id": bid, "n": b["n"], "t": b["t"], "l": s.get("l"), "bind": 1, "bindno": i, "bindof": nid}
                if b.get("e"):
                    bw["init"] = self.clone(b["e"], fr)
                self.emit("ev", bw)
        self.loop(fr, H, X, H, lambda: self.stmt(s["body"], fr))
        self.goto(H)
        self.at(X)
        self.unwind(len(self.scopes) - 1)
        self.scopes.pop()

    def st_Switch(self, s, fr):
        self._ensure()
        self.scopes.append([])
        if s.get("init"):
            self.stmt(s["init"], fr)
        if s.get("cvar"):
            self.var(s["cvar"], fr)
        e = self.expr(s["cond"], fr)
        sw = self.emit("switch", e)
        X = self.join()
        dead = self.cur is None
        self.cur = None
        rec = {"node": sw, "vals": [], "default": False}
        self.switches = getattr(self, "switches", [])
        self.switches.append(rec)
        self.breaks.append((X, len(self.scopes)))
        self.stmt(s["body"], fr)
        self.breaks.pop()
        self.switches.pop()
        self.goto(X)
        if not rec["default"]:
            self.link(sw, X, ("default", tuple(rec["vals"])))
        for i, (t, l) in enumerate(sw.succ):
            if l and l[0] == "default":
                sw.succ[i] = (t, ("default", tuple(rec["vals"])))
        self.at(X)
        self.unwind(len(self.scopes) - 1)
        self.scopes.pop()

    def st_Case(self, s, fr):
        J = self.join()
        self.goto(J)
        rec = self.switches[-1]
        v = cval(s["e"])
        v2 = cval(s["e2"]) if s.get("e2") else v
        rec["vals"].append((v, v2))
        rec["node"].succ.append((J.i, ("case", v, v2)))
        self.at(J)
        self.stmt(s["sub"], fr)

    def st_Default(self, s, fr):
        J = self.join()
        self.goto(J)
        rec = self.switches[-1]
        rec["default"] = True
        rec["node"].succ.append((J.i, ("default", ())))
        self.at(J)
        self.stmt(s["sub"], fr)

    def st_Break(self, s, fr):
        t, d = self.breaks[-1]
        self.unwind(d)
        self.goto(t)

    def st_Continue(self, s, fr):
        t, d = self.conts[-1]
        self.unwind(d)
        self.goto(t)

    def st_Null(self, s, fr):
        pass

    def st_Goto(self, s, fr):
        L = fr.labels.get(s["n"])
        if L is None:
            L = fr.labels[s["n"]] = self.node("loop", s)
        self.goto(L)

    def st_Label(self, s, fr):
        L = fr.labels.get(s["n"])
        if L is None:
            L = fr.labels[s["n"]] = self.node("loop", s)
        self.goto(L)
        self.at(L)
        self.stmt(s["sub"], fr)

    def st_Return(self, s, fr):
        kind, info = self.rets[-1]
        if kind == "cond" and s.get("e") is not None:
            T, F, depth = info
            # unwinding is done on both outcomes
            t2, f2 = self.join(), self.join()
            self.cond(s["e"], fr, t2, f2)
            self.at(t2)
            self.unwind(depth)
            self.goto(T)
            self.at(f2)
            self.unwind(depth)
            self.goto(F)
            return
        e = self.expr(s["e"], fr) if s.get("e") is not None else None
        if kind == "val":
            rid, J, depth, t = info
            if e is not None:
                self.emit("ev", {"k": "Var", "id": rid, "n": "ret", "t": t, "init": e, "l": s.get("l"), "ret": 1})
            self.unwind(depth)
            self.goto(J)
            return
        self.emit("ev", {"k": "Return", "e": e, "l": s.get("l")} if e is not None else {"k": "Return", "l": s.get("l")})
        self.unwind(self.ret_depth[-1])
        self.goto(self.exit)

    def st_Try(self, s, fr):
        J = self.join()
        H = self.node("catch", s)
        self.handlers.append(H)
        self.stmt(s["body"], fr)
        self.handlers.pop()
        self.goto(J)
        caught_all = False
        for h in s["h"]:
            hb = self.join()
            self.link(H, hb, ("handler", h.get("t", "...")))
            if h.get("all"):
                caught_all = True
            self.at(hb)
            self.stmt(h["body"], fr)
            self.goto(J)
        if not caught_all:
            self.link(H, self.handlers[-1], ("handler", "uncaught"))
        self.at(J)

    # -- conditions
    def cond(self, e, fr, T, F):
        if self.cur is None:
            return
        k = e["k"]
        if k == "Cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean", "UserDefinedConversion", "NoOp", "IntegralCast") and e["e"][
                "k"] in ("Bin", "Un", "Call", "Cast") and (e["e"].get("op") in ("&&", "||", "!") or (
                    e["e"]["k"] == "Call" and e["e"].get("t") == "bool")):
            return self.cond(e["e"], fr, T, F)
        if k == "Bin" and e["op"] == "&&":
            M = self.join()
            self.cond(e["a"], fr, M, F)
            self.at(M)
            return self.cond(e["b"], fr, T, F)
        if k == "Bin" and e["op"] == "||":
            M = self.join()
            self.cond(e["a"], fr, T, M)
            self.at(M)
            return self.cond(e["b"], fr, T, F)
        if k == "Un" and e["op"] == "!":
            return self.cond(e["e"], fr, F, T)
        if k == "Bin" and e["op"] == ",":
            self.expr(e["a"], fr, discard=True)
            return self.cond(e["b"], fr, T, F)
        if k == "Cond":
            A, B = self.join(), self.join()
            self.cond(e["cond"], fr, A, B)
            self.at(A)
            self.cond(e["a"], fr, T, F)
            self.at(B)
            return self.cond(e["b"], fr, T, F)
        if k == "Int":
            return self.goto(T if e["v"] else F)
        if k == "Call" and e.get("t") == "bool":
            callee = self.pick(e, fr)
            if callee is not None:
                return self.inline_call(e, fr, callee, ("cond", T, F))
        x = self.expr(e, fr)
        if self.cur is None:
            return
        # equality of booleans / negation already handled
        n = self.emit("br", x)
        self.link(n, T, True)
        self.link(n, F, False)
        self.cur = None

    # -- expressions
    def find_lambda(self, e):
        while e is not None:
            k = e.get("k")
            if k == "Lambda":
                return e
            if k == "Ref" and e.get("id") in self.lambdas:
                return self.lambdas[e["id"]]
            if k == "Cast":
                e = e["e"]
            elif k == "Construct" and len(e.get("args", ())) >= 1:
                e = e["args"][0]
            elif k == "Call" and e.get("n") in ("std::move", "std::forward", "std::ref") and e.get("args"):
                e = e["args"][0]
            else:
                return None

    def pick(self, call, fr):
        """Callee to inline at this call, or None."""
        if call["k"] != "Call" or "fn" not in call or call.get("virt"):
            if call["k"] == "Call" and call.get("virt"):
                c = [f for f in self.P.callees(call)]
                if len(c) == 1:
                    fn = c[0]
                else:
                    return None
            else:
                return None
        else:
            fn = self.P.fns.get(call["fn"])
        if fn is None or fn.get("body") is None:
            return None
        if len(self.stack) > self.max_depth:
            return None
        if any(f.fn["key"] == fn["key"] for f in self.stack):
            return None
        if not self.inline(fn, call, len(self.stack)):
            return None
        return fn

    def clone(self, e, fr):
        """Rename ids, substitute parameters; no events."""
        if e is None:
            return None
        k = e["k"]
        if k == "Ref" and "id" in e and e.get("dk") not in ("global", "slocal"):
            r = self.rid(e["id"], fr)
            if type(r) is dict:
                return r
            o = dict(e)
            o["id"] = r
            return o
        if k == "This":
            return self.this(fr)
        o = {}
        for kk, v in e.items():
            if type(v) is dict:
                o[kk] = self.clone(v, fr)
            elif type(v) is list and v and type(v[0]) is dict:
                o[kk] = [self.clone(x, fr) if x is not None and "k" in x else x for x in v]
            else:
                o[kk] = v
        if k == "Lambda":
            o["_frame"] = fr
            o["caps"] = e["caps"]
        return o

    def expr(self, e, fr, discard=False):
        """Emit events for e; return the rewritten value expression."""
        if e is None:
            return None
        if self.cur is None:
            return self.clone(e, fr)
        k = e["k"]
        if k in ("Int", "Float", "Str", "Null", "Zero", "SizeOf"):
            return e
        if k == "Ref" or k == "This":
            return self.clone(e, fr)
        if k == "Lambda":
            o = self.clone(e, fr)
            for c in e["caps"]:
                if c.get("init"):
                    self.var({"k": "Var", "id": c["id"], "n": c["n"], "t": c["init"].get("t", "?"), "init": c["init"],
                              "l": e.get("l")}, fr)
            self.emit("ev", o)
            return o
        if k == "Bin":
            op = e["op"]
            if op in ("&&", "||"):
                a = self.expr(e["a"], fr)
                n = self.emit("br", a)
                M, J = self.join(), self.join()
                self.link(n, M, op == "&&")
                self.link(n, J, op != "&&")
                self.at(M)
                b = self.expr(e["b"], fr)
                self.goto(J)
                self.at(J)
                o = dict(e)
                o["a"], o["b"] = a, b
                return o
            if op == ",":
                self.expr(e["a"], fr, discard=True)
                return self.expr(e["b"], fr)
            if op == "=" or (op.endswith("=") and op not in ("==", "!=", "<=", ">=", "<=>")):
                b = self.expr(e["b"], fr)
                a = self.expr(e["a"], fr)
            else:
                a = self.expr(e["a"], fr)
                b = self.expr(e["b"], fr)
            o = dict(e)
            o["a"], o["b"] = a, b
            if op == "=":
                lam = self.find_lambda(b)
                if lam is not None and a.get("k") == "Ref":
                    self.lambdas[a["id"]] = lam
            self.emit("ev", o)
            return o
        if k == "Cond":
            A, B, J = self.join(), self.join(), self.join()
            self.cond(e["cond"], fr, A, B)
            self.ntmp += 1
            tid = "c%d" % self.ntmp
            t = e.get("t", "?")
            self.at(A)
            a = self.expr(e["a"], fr)
            if self.cur is not None:
                self.emit("ev", {"k": "Var", "id": tid, "n": "cond", "t": t, "init": a, "l": e.get("l"), "syn": 1})
            self.goto(J)
            self.at(B)
            b = self.expr(e["b"], fr)
            if self.cur is not None:
                self.emit("ev", {"k": "Var", "id": tid, "n": "cond", "t": t, "init": b, "l": e.get("l"), "syn": 1})
            self.goto(J)
            self.at(J)
            return {"k": "Ref", "id": tid, "n": "cond", "dk": "tmp", "t": t, "l": e.get("l"), "alts": [a, b]}
        if k == "Throw":
            o = dict(e)
            if e.get("e"):
                o["e"] = self.expr(e["e"], fr)
            n = self.emit("ev", o)
            self.link(n, self.handlers[-1], "throw")
            self.cur = None
            return o
        if k == "Call":
            callee = self.pick(e, fr)
            # calls through a lambda variable / std::function parameter
            if callee is None:
                callee = self.pick_lambda(e, fr)
            if callee is not None:
                return self.inline_call(e, fr, callee, ("val",))
            return self.plain_call(e, fr)
        if k == "Construct":
            fn = self.P.fns.get(e.get("fn"))
            o = dict(e)
            o["args"] = [self.expr(a, fr) for a in e.get("args", ())]
            if self.cur is None:
                return o
            self.emit("ev", o)
            return o
        # generic
        o = {}
        for kk in sorted(e, key=lambda x: model._CO.get(x, 99)):
            v = e[kk]
            if type(v) is dict:
                o[kk] = self.expr(v, fr)
            elif type(v) is list and v and any(type(x) is dict for x in v):
                o[kk] = [self.expr(x, fr) if type(x) is dict and "k" in x else x for x in v]
            else:
                o[kk] = v
        self.emit("ev", o)
        return o

    def pick_lambda(self, e, fr):
        tgt = None
        if e.get("op") == "()" and e.get("args"):
            tgt = e["args"][0]
        elif e.get("obj") is not None and e.get("n", "").endswith("operator()"):
            tgt = e["obj"]
        elif e.get("callee") is not None:
            tgt = e["callee"]
        if tgt is None:
            return None
        lam = self.find_lambda(self.clone(tgt, fr))
        if lam is None:
            return None
        fn = self.P.fns.get(lam["fn"])
        if fn is None or len(self.stack) > self.max_depth or any(f.fn["key"] == fn["key"] for f in self.stack):
            return None
        return fn

    def plain_call(self, e, fr):
        o = dict(e)
        if e.get("callee"):
            o["callee"] = self.expr(e["callee"], fr)
        if e.get("obj"):
            o["obj"] = self.expr(e["obj"], fr)
        args = e.get("args", ())
        if e.get("op") in ("=", "+=", "-=", "|=", "&=") and len(args) == 2:
            b = self.expr(args[1], fr)
            a = self.expr(args[0], fr)
            o["args"] = [a, b]
        else:
            o["args"] = [self.expr(a, fr) for a in args]
        if self.cur is None:
            return o
        # lambdas handed to code that is not inlined: may run any number of times
        lams = [l for l in (self.find_lambda(a) for a in o["args"]) if l is not None]
        if e.get("obj") is not None and e.get("op") == "()":
            lams = []
        todo = []
        for lam in lams:  # a generic lambda stands for all its instantiations
            todo += [(lam, k) for k in lam.get("fns") or [lam["fn"]]]
        for lam, key in todo:
            fn = self.P.fns.get(key)
            if fn is None or len(self.stack) > self.max_depth or any(f.fn["key"] == fn["key"] for f in self.stack):
                continue
            H, X = self.node("loop", e), self.join()
            H.extra = ("lambda", o, lam)
            self.goto(H)
            B = self.join()
            self.link(H, B, "iter")
            self.link(H, X, "done")
            self.at(B)
            self.run_lambda(fn, lam, o)
            self.goto(H)
            self.at(X)
        n = self.emit("ev", o)
        if e.get("nr"):
            n.extra = "noreturn"
            self.link(n, self.handlers[-1], "noreturn")
            self.cur = None
        return o

    def run_lambda(self, fn, lam, call):
        f2 = self.frame(fn, lam["_frame"])
        for p in fn["params"]:
            nid = "%d.%s" % (f2.no, p["id"])
            f2.map[p["id"]] = nid
            self.emit("ev", {"k": "LParam", "id": nid, "n": p["n"], "t": p["t"], "l": lam.get("l"), "call": call})
        self.enter(fn, f2, call)
        J = self.join()
        self.rets.append(("val", ("lr%d" % f2.no, J, len(self.scopes), fn["ret"])))
        self.body(fn, f2)
        self.rets.pop()
        self.goto(J)
        self.leave()
        self.at(J)

    def enter(self, fn, f2, call):
        self.chain.append((self.stack[-1].fn, call.get("l", 0)))
        self.stack.append(f2)
        self._sv = getattr(self, "_sv", [])
        self._ensure()
        self._sv.append((self.breaks, self.conts, getattr(self, "switches", [])))
        self.breaks, self.conts, self.switches = [], [], []
        self.inlined.add(fn["key"])

    def leave(self):
        self.chain.pop()
        self.stack.pop()
        self.breaks, self.conts, self.switches = self._sv.pop()

    def inline_call(self, e, fr, fn, mode):
        args = list(e.get("args", ()))
        obj = e.get("obj")
        islam = bool(fn.get("lambda"))
        tgt = None
        if e.get("op") and (islam or fn.get("cls")) and obj is None and not fn.get("smeth") and len(args) == len(fn["params"]) + 1:
            tgt = args.pop(0)
        elif obj is not None:
            tgt = obj
        elif e.get("callee") is not None:
            tgt = e["callee"]
        lam = None
        thisx = None
        if islam:
            lam = self.find_lambda(self.clone(tgt, fr)) if tgt is not None else None
            if lam is None:
                # unknown definer frame: approximate with the current one
                lam = {"_frame": fr}
        elif tgt is not None:
            thisx = self.expr(tgt, fr)
        vals = [self.expr(a, fr) for a in args]
        if self.cur is None:
            return {"k": "Dead", "t": e.get("t", "?")}
        f2 = self.frame(fn, lam["_frame"] if islam else None)
        if not islam and thisx is not None:
            f2.this = thisx if (e.get("arrow") or thisx.get("t", "").endswith("*")) else thisx
        for p, v in zip(fn["params"], vals):
            t = p["t"]
            lamv = self.find_lambda(v)
            nid = "%d.%s" % (f2.no, p["id"])
            if lamv is not None:
                self.lambdas[nid] = lamv
            if (t.endswith("&")) and self.is_path(v) or v.get("k") == "Ref" and v.get("dk") == "enum":
                f2.map[p["id"]] = v
            elif lamv is not None:
                f2.map[p["id"]] = nid
            else:
                f2.map[p["id"]] = nid
                self.emit("ev", {"k": "Var", "id": nid, "n": p["n"], "t": t, "init": v, "l": e.get("l"), "param": 1})
        self.enter(fn, f2, e)
        depth = len(self.scopes)
        if mode[0] == "cond":
            self.rets.append(("cond", (mode[1], mode[2], depth)))
            self.body(fn, f2)
            self.rets.pop()
            self.cur = None
            self.leave()
            return None
        J = self.join()
        rid = "r%d" % f2.no
        self.rets.append(("val", (rid, J, depth, fn["ret"])))
        self.body(fn, f2)
        self.rets.pop()
        self.goto(J)
        self.leave()
        self.at(J)
        if not any(True for n in self.nodes for s, l in n.succ if s == J.i) if False else False:
            pass
        return {"k": "Ref", "id": rid, "n": fn["n"].split("::")[-1] + "()", "dk": "ret", "t": e.get("t", "?"), "l": e.get("l"),
                "call": fn["key"]}


def cval(e):
    while e is not None and e.get("k") == "Cast":
        if "cv" in e:
            return e["cv"]
        e = e["e"]
    if e is None:
        return None
    if e.get("k") == "Int":
        return e["v"]
    return e.get("cv")


def reachable(B):
    seen = set([B.entry.i])
    st = [B.entry.i]
    while st:
        i = st.pop()
        n = B.nodes[i]
        outs = [s for s, _ in n.succ]
        if n.exc is not None:
            outs.append(n.exc)
        for s in outs:
            if s not in seen:
                seen.add(s)
                st.append(s)
    return seen
