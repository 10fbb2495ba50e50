"""Abstract interpretation of an inlined control-flow graph with a small environment of symbolic values
(paths -> values), explored path-sensitively as a typestate product (flow.Flow)."""
import cfg, flow, model
from model import strip

CMP = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def deep(e):
    """strip casts and copies"""
    e = strip(e)
    while e is not None and e.get("k") == "Construct" and len(e.get("args", ())) == 1:
        e = strip(e["args"][0])
    return e


def compare(e):
    """(op, a, b) of a comparison"""
    e = strip(e)
    if e.get("k") == "Bin" and e["op"] in CMP:
        return e["op"], e["a"], e["b"]
    if e.get("k") == "Call" and e.get("op") in CMP:
        o = flow.operands(e)
        if len(o) == 2:
            return e["op"], o[0], o[1]
    return None


class Interp:
    """sem (the domain) may define: root(e) -> path name; value(e, env, I) -> value or None; event(n, env, I) -> False/True (handled);
    branch(e, pol, env, I) -> False if infeasible; enter(n, env, I); mapmember(path, field)."""

    def __init__(self, B, sem, init=None, limit=400000):
        self.B, self.sem = B, sem
        self.exprs = []
        self.exprno = {}
        self.bad = {}
        self.synth = {}
        # variables that count through subscripts are symbols, never constants
        inc, sub = set(), set()
        for n in B.nodes:
            if n.ast is None:
                continue
            for x in model.walk(n.ast):
                k = x.get("k")
                if k == "Un" and ("++" in x["op"] or "--" in x["op"]):
                    y = deep(x["e"])
                    if y.get("k") == "Ref":
                        inc.add("v:%s" % y.get("id"))
                i = None
                if k == "Index":
                    i = x["idx"]
                elif k == "Call" and (x.get("op") == "[]" or flow.short(x) == "at") and len(flow.operands(x)) == 2:
                    i = flow.operands(x)[1]
                elif k == "Bin" and x["op"] == "%":
                    i = x["a"]
                if i is not None:
                    sub |= {"v:%s" % y.get("id") for y in model.walk(i) if y.get("k") == "Ref"}
        self.counters = inc & sub
        env = dict(init or {})
        self.F = flow.Flow(B, frozenset(env.items()), self.step, limit=limit)

    # -- paths
    def path(self, e, env):
        e = deep(e)
        if e is None:
            return None
        k = e.get("k")
        if k == "Ref":
            r = self.sem.root(e, env, self)
            if r is not None:
                return r
            i = e.get("id") or e.get("gk") or e.get("n")
            v = env.get("v:%s" % i)
            if type(v) is tuple and v[0] in ("PTR", "IDX"):
                return v[1]
            return "v:%s" % i
        if k == "This":
            return "this"
        if k == "Member":
            if e.get("anon"):
                return self.path(e["base"], env)
            b = "this" if e.get("base") is None else self.path(e["base"], env)
            if b is None:
                return None
            m = self.sem.mapmember(b, e["f"])
            if m is not None:
                return m
            p = b + "." + e["f"]
            v = env.get(p)
            if type(v) is tuple and v[0] == "PTR":
                return v[1]
            return p
        if k == "Un" and e["op"] in ("*", "&"):
            return self.path(e["e"], env)
        if k == "Index":
            b = self.path(e["base"], env)
            return b and "%s[%s]" % (b, self.index(e["idx"], env))
        if k == "Call":
            s = flow.short(e)
            o = flow.operands(e)
            if s == "data" and len(o) == 1:
                return self.path(o[0], env)
            if e.get("op") in ("*", "->") and len(o) == 1 or s in ("move", "forward", "as_const", "ref", "get", "value") and len(o) == 1:
                return self.path(o[0], env)
            if (e.get("op") == "[]" or s == "at") and len(o) == 2:
                b = self.path(o[0], env)
                return b and "%s[%s]" % (b, self.index(o[1], env))
            if s == "size" and len(o) == 1:
                b = self.path(o[0], env)
                return b and b + ".size()"
        return None

    def lpath(self, e, env):
        """the path an assignment to e writes (a pointer variable itself, not what it points to)"""
        x = deep(e)
        if x is not None and x.get("k") == "Ref" and self.sem.root(x, env, self) is None:
            i = "v:%s" % (x.get("id") or x.get("gk") or x.get("n"))
            v = env.get(i)
            if type(v) is tuple and v[0] == "IDX":
                return i
        if x is not None and x.get("t", "").rstrip("const ").endswith("*"):
            if x.get("k") == "Ref":
                r = self.sem.root(x, env, self)
                if r is not None:
                    return r
                return "v:%s" % (x.get("id") or x.get("gk") or x.get("n"))
            if x.get("k") == "Member" and not x.get("anon"):
                b = "this" if x.get("base") is None else self.path(x["base"], env)
                return b and (self.sem.mapmember(b, x["f"]) or b + "." + x["f"])
        return self.path(e, env)

    def index(self, e, env):
        v = self.eval(e, env)
        if v is not None and v[0] in ("E", "IDX"):
            return str(v[1])
        return self.path(e, env) or "?"

    # -- values
    def eval(self, e, env):
        e0 = e
        e = deep(e)
        if e is None:
            return None
        v = self.sem.value(e, env, self)
        if v is not None:
            return v
        k = e.get("k")
        if k == "Null":
            return ("NULL",)
        c = cfg.cval(e0)
        if c is None:
            c = cfg.cval(e)
        if c is not None:
            return ("E", c)
        if k == "Ref" and e.get("dk") == "enum" and "cv" in e:
            return ("E", e["cv"])
        if k == "Un" and e["op"] == "&":
            p = self.path(e["e"], env)
            return p and ("PTR", p)
        p = self.lpath(e, env)
        if p is not None and p in env:
            return env[p]
        p = self.path(e, env)
        if p is not None and p in env:
            return env[p]
        if p is not None and "*" in e.get("t", "") and not p.startswith("v:"):
            return None
        neg = None
        if k == "Un" and e["op"] == "-":
            neg = e["e"]
        elif k == "Call" and e.get("op") == "-" and len(flow.operands(e)) == 1:
            neg = flow.operands(e)[0]
        if neg is not None:
            v = self.eval(neg, env)
            if v is not None and v[0] == "PL":
                return ("PL", v[1], -v[2])
        if k == "Bin" and e["op"] in ("+", "-", "*", "&", "|", "^", "%", ">>", "<<"):
            a, b = self.eval(e["a"], env), self.eval(e["b"], env)
            if a is not None and b is not None and a[0] == b[0] == "E" and type(a[1]) is int and type(b[1]) is int:
                x, y = a[1], b[1]
                if e["op"] == "%" and y > 0 and x >= 0:
                    return ("E", x % y)
                if e["op"] in ("+", "-", "*", "&", "|", "^"):
                    return ("E", {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[e["op"]])
            if e["op"] == "+" and b is not None and b[0] == "E":
                q = self.path(e["a"], env)
                return q and ("IDX", "%s+%s" % (q, b[1]))
            if e["op"] == "%" and a is not None and a[0] == "IDX":
                return a
        if k == "Bin" and e["op"] in CMP or k == "Un" and e["op"] == "!" or k == "Bin" and e["op"] in ("&&", "||", "&"):
            if e.get("t") == "bool" or e["op"] == "&":
                return ("EXPR", self.exprid(e))
        return None

    def exprid(self, e):
        i = id(e)
        if i not in self.exprno:
            self.exprno[i] = len(self.exprs)
            self.exprs.append(e)
        return self.exprno[i]

    def kill(self, env, p):
        """forget facts that mention path p"""
        for k in list(env):
            if k.startswith("#rel:") and p in k[5:].split("|"):
                del env[k]

    def assign(self, env, p, v):
        if p is None:
            return
        for k in list(env):
            if k.startswith(p + ".") or k.startswith(p + "["):
                del env[k]
        self.kill(env, p)
        for k, w in list(env.items()):  # symbolic indices written in terms of p
            if type(w) is tuple and w and w[0] == "IDX" and w[1].split("+")[0] == p and k != p:
                del env[k]
        if v is None or p in self.counters and v[0] in ("E", "POS"):
            env.pop(p, None)
        else:
            env[p] = v

    # -- transfer
    def step(self, n, s, lab):
        env = dict(s)
        if lab == "exc":
            return None
        r = self.sem.enter(n, env, self)
        if r is False:
            return None
        if n.kind == "br" and lab in (True, False):
            envs = self.many(n.ast, lab, env)
            if len(envs) != 1:
                out = []
                for v in envs:
                    if self.sem.leave(n, lab, v, self) is not False:
                        out.append(frozenset(v.items()))
                return out or None
            env = envs[0]
        elif n.kind == "ev" and n.ast is not None:
            if not self.sem.event(n, env, self):
                self.default(n, env)
        r = self.sem.leave(n, lab, env, self)
        if r is False:
            return None
        return frozenset(env.items())

    def default(self, n, env):
        e = n.ast
        k = e.get("k")
        if k == "Var":
            p = "v:%s" % e["id"]
            v = self.eval(e["init"], env) if e.get("init") is not None else None
            if v is None and e.get("init") is not None and ("&" in e["t"] or "*" in e["t"]):
                q = self.path(e["init"], env)
                if q is not None and q != p and "&" in e["t"]:
                    v = ("PTR", q)
            if v is not None and v[0] != "PTR" and e["t"].endswith("&"):
                q = self.path(e["init"], env)
                if q is not None and q != p:
                    v = ("PTR", q)
            if v is None and e.get("init") is not None and p not in self.counters and not e["t"].endswith(("*", "&")):
                q = self.path(e["init"], env)
                if q is not None and q.split("+")[0] in self.counters:
                    v = ("IDX", q)
            self.assign(env, p, v)
        elif k == "RVar":
            self.assign(env, "v:%s" % e["id"], None)
        elif k == "Bin" and e["op"] == "=":
            self.assign(env, self.lpath(e["a"], env), self.eval(e["b"], env))
        elif k == "Call" and e.get("op") == "=" and len(flow.operands(e)) == 2:
            a, b = flow.operands(e)
            self.assign(env, self.lpath(a, env), self.eval(b, env))
        elif k == "Bin" and e["op"].endswith("=") and e["op"] not in CMP:
            p = self.lpath(e["a"], env)
            v = env.get(p)
            inc = None
            if e["op"] == "+=" and v is not None and v[0] in ("E", "POS"):
                w = self.eval(e["b"], env)
                if w is not None and w[0] == "E" and w[1] >= 0:
                    inc = v if w[1] == 0 else ("POS",) if v[0] == "POS" or v[1] >= 0 else None
            self.assign(env, p, inc)
        elif k == "Un" and e["op"] in ("++", "--", "p++", "p--"):
            p = self.lpath(e["e"], env)
            v = env.get(p)
            inc = None
            if "++" in e["op"] and v is not None and (v[0] == "POS" or v[0] == "E" and v[1] >= 0):
                inc = ("POS",)
            self.assign(env, p, inc)

    def truth(self, v):
        if v is None:
            return None
        if v[0] == "E":
            return v[1] != 0
        if v[0] == "POS":
            return True
        if v[0] == "NULL":
            return False
        if v[0] == "PTR":
            return True
        return self.sem.truth(v)

    def many(self, e, pol, env, depth=0):
        """environments in which e has truth value pol (alternatives are kept apart)"""
        e = strip(e)
        while e.get("k") == "Un" and e["op"] == "!":
            e, pol = strip(e["e"]), not pol
        if depth < 6:
            x = e
            if x.get("k") == "Ref":
                v = self.eval(x, env)
                if v is not None and v[0] == "EXPR" and self.exprs[v[1]] is not x:
                    x = strip(self.exprs[v[1]])
                    if x.get("k") == "Un" and x["op"] == "!":
                        return self.many(x, pol, env, depth + 1)
            if x.get("k") == "Bin" and x["op"] in ("&&", "||"):
                if (x["op"] == "&&") == pol:
                    return [w for v in self.many(x["a"], pol, env, depth + 1) for w in self.many(x["b"], pol, v, depth + 1)]
                r = self.many(x["a"], pol, dict(env), depth + 1)
                for v in self.many(x["a"], not pol, dict(env), depth + 1):
                    r += self.many(x["b"], pol, v, depth + 1)
                return r
            c = compare(x)
            if c:
                op, a, b = c
                for u, w, o in ((a, b, op), (b, a, SWAP[op])):
                    y = deep(u)
                    if o in ("<", "<=", ">", ">=") and y.get("k") == "Call" and flow.short(y) in ("abs", "fabs", "fabsf") and len(flow.operands(y)) == 1:
                        key = (id(x), o)
                        if key not in self.synth:
                            y = flow.operands(y)[0]
                            neg = {"k": "Un", "op": "-", "e": w, "t": w.get("t", "")}
                            self.synth[key] = ({"k": "Bin", "op": o, "a": y, "b": w, "t": "bool"}, {"k": "Bin", "op": SWAP[o], "a": y, "b": neg, "t": "bool"})
                        p, q = self.synth[key]
                        if (o in ("<", "<=")) == pol:
                            return [v2 for v in self.many(p, pol, env, depth + 1) for v2 in self.many(q, pol, v, depth + 1)]
                        return self.many(p, pol, dict(env), depth + 1) + self.many(q, pol, dict(env), depth + 1)
        return [] if self.refine(e, pol, env) is False else [env]

    def refine(self, e, pol, env, depth=0):
        e = strip(e)
        while e.get("k") == "Un" and e["op"] == "!":
            e, pol = strip(e["e"]), not pol
        c = compare(e)
        if c:
            op, a, b = c
            for x, y, o in ((a, b, op), (b, a, SWAP[op])):
                vy = self.eval(y, env)
                if o in ("==", "!=") and vy is not None and (vy[0] == "NULL" or vy == ("E", 0)):
                    # null / zero test
                    xx = strip(x)
                    r = self.refine_truth(xx, pol if o == "!=" else not pol, env)
                    return r
                if o in (">", "<=") and vy == ("E", 0):
                    vx = self.eval(x, env)
                    if vx is not None and vx[0] == "POS":
                        return (o == ">") == pol
            va, vb = self.eval(a, env), self.eval(b, env)
            if va is not None and vb is not None and va[0] == "E" and vb[0] == "E":
                r = {"<": va[1] < vb[1], ">": va[1] > vb[1], "<=": va[1] <= vb[1], ">=": va[1] >= vb[1], "==": va[1] == vb[1], "!=": va[1] != vb[1]}[op]
                return r == pol
            if self.sem.branch(e, pol, env, self) is False:
                return False
            pa, pb = self.path(a, env), self.path(b, env)
            if pa is not None and pb is not None and op in ("<", "!=", ">=", "=="):
                lt = pol if op in ("<", "!=") else not pol
                k = "#rel:%s|%s" % (pa, pb)
                k2 = "#rel:%s|%s" % (pb, pa)
                for kk in (k, k2 if op in ("!=", "==") else k):
                    if kk in env:
                        return env[kk] == lt
                env[k] = lt
            elif pa is not None and pb is not None and op in (">", "<="):
                lt = pol if op == ">" else not pol
                k = "#rel:%s|%s" % (pb, pa)
                if k in env:
                    return env[k] == lt
                env[k] = lt
            return True
        return self.refine_truth(e, pol, env)

    def refine_truth(self, x, pol, env):
        v = self.eval(x, env)
        if v is not None and v[0] == "EXPR":
            ex = self.exprs[v[1]]
            if ex is not x and ex is not strip(x):
                if ex.get("k") == "Bin" and ex["op"] in ("&&", "||"):
                    if (ex["op"] == "&&") == pol:
                        return self.refine(ex["a"], pol, env) is not False and self.refine(ex["b"], pol, env) is not False
                    return True
                return self.refine(ex, pol, env)
        t = self.truth(v)
        if t is not None:
            return t == pol
        return self.sem.branch(x, pol, env, self, truth=True)


class Sem:
    def root(self, e, env, I):
        return None

    def mapmember(self, b, f):
        return None

    def value(self, e, env, I):
        return None

    def event(self, n, env, I):
        return False

    def branch(self, e, pol, env, I, truth=False):
        return None

    def truth(self, v):
        return None

    def enter(self, n, env, I):
        return None

    def leave(self, n, lab, env, I):
        return None
