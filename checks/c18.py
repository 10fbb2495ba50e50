"""C18: vis only narrows visibility for geometric reasons."""
import absint, cfg, flow, loops, model, poly
from absint import compare, deep
from flow import operands, short
from model import AnalysisBroken, strip, walk

RULE = ("Path-sensitive abstract interpretation of the portal flow: every winding carries the role (source, pass, target) it stands for, every plane the portal and side it "
        "belongs to. A portal may be dropped in an iteration of the flow only on paths with an accepted reason (not possibly visible, nothing new, coplanar, clipped away), each "
        "clip must keep the side that visibility along source->pass->target implies, separators must be built between and applied to the right roles with the right "
        "parity, passing portals must be recursed into (or marked) with the clipped windings, and temporaries are released exactly once.")

ORDER = {"S": 0, "P": 1, "T": 2}
PRIM = ("ClipToSeparators", "ClipStackWinding", "FreeStackWinding", "AllocStackWinding", "TargetChecks", "IterativeTargetChecks", "RecursiveLeafFlow", "SimpleFlood")


def inl(fn, c, d):
    return fn["f"].startswith("vis/") and short(fn) not in PRIM and not fn["n"].startswith(("logging::", "FError", "Error"))


def bit(e):
    """(bitset expression, index expression) of a single-bit access"""
    e = deep(e)
    for _ in range(3):
        if e is not None and e.get("k") == "Call" and (e.get("n", "").split("::")[-1].startswith("operator bool") or e.get("conv")) and len(operands(e)) == 1:
            e = deep(operands(e)[0])
    if e is not None and e.get("k") == "Call" and e.get("op") == "[]" and len(operands(e)) == 2 and "leafbits_t" in operands(e)[0].get("t", ""):
        return operands(e)[0], operands(e)[1]
    return None


def andtree(e):
    e = strip(e)
    if e.get("k") == "Bin" and e["op"] == "&":
        return andtree(e["a"]) + andtree(e["b"])
    return [e]


def blocks(B, e, D):
    """e is the number of 32-bit blocks of a bit set with one bit per leaf"""
    e = strip(e)
    for _ in range(4):
        if e.get("k") == "Ref" and e.get("id") in D and D[e["id"]] is not None:
            e = strip(D[e["id"]])
    if e.get("k") == "Bin" and e["op"] == ">>" and cfg.cval(e["b"]) == 5:
        a = strip(e["a"])
        if a.get("k") == "Bin" and a["op"] == "+":
            for x, y in ((a["a"], a["b"]), (a["b"], a["a"])):
                if (cfg.cval(y) or 0) >= 31:
                    x = strip(x)
                    return x.get("k") == "Ref" and x.get("n", "").split("::")[-1] == "portalleafs" or x.get("k") == "Call" and short(x) in ("size", "numleafs")
    if e.get("k") == "Call" and short(e) in ("block_size", "num_blocks", "size") and "leafbits" in (e.get("obj") or {}).get("t", ""):
        return True
    return False


def bound_of(B, h):
    """(counter id, bound expression, exit branch) of a counted loop that visits 0..bound-1 in steps of one, or a reason"""
    bd = loops.body(B, h)
    br, i, seen = None, h, set()
    while i not in seen:
        seen.add(i)
        n = B.nodes[i]
        if n.kind == "br":
            br = n
            break
        if len(n.succ) != 1:
            break
        i = n.succ[0][0]
    if br is None or not any(s not in bd for s, l in br.succ):
        return "the loop has no counting condition"
    c = compare(br.ast)
    if not c:
        return "loop condition %s not recognised" % model.path(br.ast)
    op, a, b = c
    if op in (">",):
        op, a, b = "<", b, a
    a = strip(a)
    if op == "<" and a.get("k") == "Bin" and a["op"] == "+" and cfg.cval(a["b"]) and strip(a["a"]).get("k") == "Ref":
        a, b = strip(a["a"]), {"k": "Bin", "op": "-", "a": b, "b": a["b"], "t": b.get("t", "")}  # i + c < n
    if op == "!=" and a.get("k") != "Ref":
        a, b = strip(b), a
    if op not in ("<", "!=") or a.get("k") != "Ref":
        return "loop condition %s not recognised" % model.path(br.ast)
    ass = loops.assigned_in(B, a["id"], bd)
    if len(ass) != 1 or not loops.step_ok(ass[0][1]):
        return "the loop counter does not advance by one"
    return a["id"], b, br, ass[0][0]


def start_of(B, h, vid):
    """constant the counter has when the loop is entered"""
    bd = loops.body(B, h)
    best = None
    dom = set()
    for n in B.nodes:
        e = n.ast
        if n.kind != "ev" or e is None or n.i in bd:
            continue
        v = None
        if e.get("k") == "Var" and e["id"] == vid:
            v = e.get("init")
        elif e.get("k") == "Bin" and e["op"] == "=" and strip(e["a"]).get("id") == vid:
            v = e["b"]
        else:
            continue
        if h in loops.reach_from(B, [n.i]):
            best = (n.i, v) if best is None or best[0] in loops.reach_from(B, [B.entry.i], stop=(n.i,)) or True else best
    return cfg.cval(best[1]) if best and best[1] is not None else None


class Vis(absint.Sem):
    def __init__(self, ck, P, B, name, head, prev):
        self.ck, self.P, self.B, self.name = ck, P, B, name
        self.roots = {}
        for v, r in ((head, "head"), (prev, "prev")):
            if v:
                self.roots["0.%s" % v] = r
        self.D = flow.defs(B)
        self.viol = []
        self.obs = {}
        self.inhheads = set()
        self.passed = False
        self.cur = None
        self.E = P.enums
        # the portal variable: the one whose winding is clipped
        tv = set()
        for n in B.nodes:
            if n.kind == "ev" and n.ast is not None:
                for x in walk(n.ast):
                    if x.get("k") == "Member" and x["f"] == "winding" and "visportal_t" in (x.get("base") or {}).get("t", ""):
                        b = deep(x["base"])
                        while b.get("k") in ("Un",) or b.get("k") == "Call" and b.get("op") in ("*", "->"):
                            b = deep(b.get("e") or operands(b)[0])
                        if b.get("k") == "Ref":
                            tv.add(b.get("id"))
        self.tv = tv
        self.local = None
        for n in B.nodes:
            if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and n.ast["t"].replace("struct ", "") == "pstack_t":
                self.local = n.ast["id"]
                self.zeroed = n.ast.get("init") is not None and strip(n.ast["init"]).get("k") in ("Init", "Zero")
        calls = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call"]
        self.calls = calls
        self.rec = [n for n in calls if short(n.ast) == "RecursiveLeafFlow"]
        self.nleaf = None
        self.sepheads = {}
        for n in calls:
            if short(n.ast) == "ClipStackWinding":
                for x in walk(n.ast):
                    if x.get("k") == "Member" and x["f"] == "separators":
                        hs = loops.loops_of(B, n.i)
                        self.sepheads.setdefault(hs[0] if hs else None, n)

    # -- names
    def root(self, e, env, I):
        i = e.get("id")
        if i in self.roots:
            return self.roots[i]
        if i is not None and i == self.local:
            return "L"
        if i in self.tv:
            v = env.get("v:%s" % i)
            return v[1] if v is not None and v[0] == "PTR" and v[1] == "T" else "T"
        return None

    def mapmember(self, b, f):
        if f == "pstack_head":
            return "head"
        if f == "leafvis":
            return "VIS"
        return None

    def value(self, e, env, I):
        k = e.get("k")
        if k == "Call" and short(e) == "data" and len(operands(e)) == 1 and "leafbits" in operands(e)[0].get("t", ""):
            p = I.path(operands(e)[0], env)
            return p and ("PTR", p)
        if k == "Call" and short(e) == "ClipStackWinding":
            return env.get("#r:%d" % id(e), ("UNK",))
        if k == "Member" and e["f"] == "normal":
            v = I.eval(e["base"], env)
            if v is not None and v[0] == "PL":
                return ("N",) + v[1:]
            return None
        if k in ("Member", "Call", "Ref", "Un", "Index"):
            p = I.path(e, env)
            if p in ("prev", "head", "L", "T") and "*" in e.get("t", ""):
                return ("PTR", p)
            if p in ("prev.source", "head.source"):
                return ("W", "S", "o", "n", 0)
            if p == "prev.pass":
                return ("W", "P", "o", env.get("#pp", "?"), 1)
            if p == "T.winding":
                return ("W", "T", "o", "n", 2)
            if p == "prev.portalplane":
                return ("PL", "P", 1)
            if p == "head.portalplane":
                return ("PL", "S", 1)
            if p == "T.plane":
                return ("PL", "T", 1)
            if p is not None and p.startswith("L.separators["):
                return ("SEP", p[13:14])
        return None

    def truth(self, v):
        if v[0] == "W":
            return {"n": True, "0": False}.get(v[3])
        return None

    # -- obligations
    def ob(self, group, key, ok, n, text):
        k = (group, key, n.i)
        o = self.obs.get(k)
        if o is None or (o[0] and not ok):
            self.obs[k] = (bool(ok), n, text)

    def publish(self):
        for (g, key, i), (ok, n, text) in sorted(self.obs.items(), key=lambda x: (x[0][0], x[0][1], x[0][2])):
            self.ck.ob(g, "%s:%s" % (self.name, key), ok, n.where(), text)

    def clip(self, e, w, i):
        if w is None or w[0] != "W":
            return None
        return ("W", w[1], "m", "?", i)

    def setw(self, env, old, new):
        for k, v in list(env.items()):
            if type(v) is tuple and v[:1] == ("W",) and v[4] == old[4] and v[1] == old[1]:
                env[k] = new

    def live(self, env):
        return {v[4] for k, v in env.items() if type(v) is tuple and v[:1] == ("W",) and v[2] == "m" and v[3] != "0"}

    # -- events
    def event(self, n, env, I):
        e = n.ast
        k = e.get("k")
        if k in ("Var", "RVar") and "visportal_t" in e["t"] and e["id"] in self.tv:
            q = I.path(e["init"], env) if k == "Var" and e.get("init") is not None else None
            if q == "T":
                return True
            self.newportal(env)
            return True
        if k == "Bin" and e["op"] in ("=", "+=") or k == "Un" and e["op"] in ("++", "p++"):
            a = strip(e.get("a") or e.get("e"))
            if a.get("k") == "Ref" and a.get("id") in self.tv:
                self.newportal(env)
                return True
        if k == "Call":
            s = short(e)
            if s == "ClipStackWinding":
                return self.on_clip(n, e, env, I)
            if s == "ClipToSeparators":
                return self.on_separators(n, e, env, I)
            if s == "FreeStackWinding":
                w = I.eval(e["args"][0], env)
                if w is not None and w[0] == "W":
                    self.ob("winding-release", "free:%s" % model.path(e["args"][0]), w[3] != "0" and w[2] in ("m", "o"), n, "a temporary winding is released once, while it exists")
                    for kk, v in list(env.items()):
                        if type(v) is tuple and v[:1] == ("W",) and v[4] == w[4] and v[1] == w[1] and v[2] == "m":
                            env[kk] = ("FREED",)
                else:
                    self.ob("winding-release", "free:%s" % model.path(e["args"][0]), w == ("NULL",), n, "a temporary winding is released once, while it exists (%s here)" % (w[0] if w else "unknown"))
                return True
            if s == "RecursiveLeafFlow":
                return self.on_flow(n, e, env, I)
            if e.get("op") == "=" and len(operands(e)) == 2:
                b = bit(operands(e)[0])
                if b is not None:
                    self.on_bit(n, b, operands(e)[1], env, I)
                    return True
                pa, pb = I.path(operands(e)[0], env), I.path(operands(e)[1], env)
                if self.outbits and pa == self.outbits:
                    self.ob("target-pass", "whole", pb == self.inbits, n, "without a pass portal every portal keeps the mark it came with")
                    env["#whole"] = 1
                if self.outbits and pa == "prev.mightsee":
                    self.ob("target-pass", "transfer", self.local_is(pb, env), n, "the new limit is the set of leafs that passed")
                    env["#xfer"] = 1
            return False
        if k == "Bin" and e["op"].endswith("=") and e["op"] not in absint.CMP:
            p = I.lpath(e["a"], env)
            lb = env.get("L.mightsee")
            if p is not None and lb is not None and lb[0] == "PTR" and p.startswith(lb[1] + "[") and "leafbits" not in strip(e["a"]).get("t", ""):
                self.on_narrow(n, e, p, lb[1], env, I)
                return True
            if e["op"] == "|=":
                leaves = andtree(e["b"])
                neg = [x for x in leaves if x.get("k") == "Un" and x["op"] == "~"]
                if neg and I.path(neg[0]["e"], env) and I.path(neg[0]["e"], env).startswith("VIS["):
                    self.on_more(n, e, leaves, neg, env, I)
                    return True
        return False

    def newportal(self, env):
        for k, v in list(env.items()):
            if k in ("#why", "#in", "#done", "#narrow", "#flow", "#mark") or k.startswith("#test"):
                continue
            if type(v) is tuple and (v[0] in ("PL", "N") and v[1] == "T" or v[0] == "MORE"):
                env[k] = ("OLD",)
            if type(v) is tuple and v[0] == "PTR" and v[1].startswith("T."):
                env[k] = ("OLD",)
        for k in list(env):
            if k in ("#done", "#narrow") or k.startswith("#rel:T."):
                env.pop(k)

    def on_clip(self, n, e, env, I):
        a = e["args"]
        w, pl = I.eval(a[1], env), I.eval(a[3], env)
        name = "clip:%s/%s" % (model.path(a[1]), model.path(a[3]))
        ok, why = False, "roles %s clipped by %s" % (w and w[:2], pl)
        if w is not None and w[0] == "W" and pl is not None:
            if pl[0] == "PL" and w[1] != pl[1]:
                ok = (ORDER[pl[1]] < ORDER[w[1]]) == (pl[2] > 0) and w[1] != "P"
            elif pl[0] == "SEP":
                ok = w[1] == "T"
            self.ob("winding-release", name + ":use", w[3] != "0", n, "a winding that was clipped away or released is not used again")
            self.ob("clip-role", "clip:stack", I.path(a[2], env) == "L", n, "temporaries are taken from the frame they are released to")
        elif w is not None and w[0] in ("FREED", "STALE"):
            self.ob("winding-release", name + ":use", False, n, "a winding that was released is used again")
        self.ob("clip-role", name, ok, n, "the side of the plane that is kept must be the one a line source -> pass -> target can be on: what lies behind an earlier portal or "
                "in front of a later one is cut away (%s)" % why)
        lv = self.live(env)
        self.ob("clip-role", name + ":pool", len(lv) <= self.pool - 1, n, "at most %d temporaries may be held when another one is needed (%d here)" % (self.pool - 1, len(lv)))
        # the argument is consumed
        if w is not None and w[0] == "W" and w[2] == "m":
            for k, v in list(env.items()):
                if type(v) is tuple and v[:1] == ("W",) and v[4] == w[4] and v[1] == w[1]:
                    env[k] = ("STALE", w[1])
        r = self.clip(e, w, n.i)
        if r is not None:
            env["#r:%d" % id(e)] = r
        return True

    def on_separators(self, n, e, env, I):
        a = e["args"]
        x, xp, y, t = (I.eval(a[i], env) for i in (1, 2, 3, 4))
        k = cfg.cval(a[5])
        name = "separators:%s" % (k if k is not None else model.path(a[5]))
        ok = all(v is not None for v in (x, xp, y, t)) and x[0] == y[0] == t[0] == "W" and xp[0] == "PL" and k is not None
        txt = ""
        if ok:
            txt = "planes between %s and %s (plane of %s) applied to %s with parity %d" % (x[1], y[1], xp[1], t[1], k & 1)
            self.ob("separator-role", name + ":plane", xp[1] == x[1] and xp[2] > 0, n, "the plane passed along must be that of the portal whose edges are used: " + txt)
            self.ob("separator-role", name, len({x[1], y[1], t[1]}) == 3 and t[1] != "P" and (y[1] == "P") == (k % 2 == 0), n,
                    "separators lie between the middle (pass) portal and one end and cut the other end; the kept side is that of the middle portal: " + txt)
            self.ob("separator-role", name + ":cache", k >= 2 or x[2] == "o" and y[2] == "o" and 0 <= k, n,
                    "separators that are kept for later targets may not depend on the current target: " + txt)
            self.ob("separator-role", name + ":live", all(v[3] != "0" for v in (x, y, t)), n, "no clipped-away winding is used")
        else:
            self.ob("separator-role", name, False, n, "roles of the arguments not established: %s" % [v and v[:2] for v in (x, xp, y, t)])
        if k is not None:
            self.ob("separator-role", name + ":level", env.get("#level", 0) > k, n, "test %d belongs to detail level %d and above" % (k, k + 1))
            env["#test%d" % k] = 1
        p = I.lpath(a[4], env)
        if ok:
            new = ("W", t[1], "m", "?", n.i)
            env[p] = new
        return True

    def on_bit(self, n, b, val, env, I):
        p, ix = I.path(b[0], env), I.path(b[1], env)
        v = I.eval(val, env)
        if p == "VIS":
            self.ob("leaf-visible", "mark", v == ("E", 1) and self.isleaf(ix), n, "the leaf entered is the one marked as visible")
            if v == ("E", 1) and self.isleaf(ix):
                env["#marked"] = 1
        elif p is not None and p == (env.get("L.mightsee") or (0, 0))[1]:
            self.ob("target-pass", "mark-leaf", v == ("E", 1) and ix == "T.leaf", n, "the leaf behind a portal that passes every test stays possibly visible")
            if v == ("E", 1) and ix == "T.leaf":
                env["#flow"] = 1
        elif p == self.outbits:
            if v == ("E", 1) and self.isindex(b[1], env, I):
                env["#mark"] = 1
            else:
                self.inherit(n, b, val, env, I)

    def twin(self, e, env, I):
        """e is the index of the other portal of a pair: (q - portals) ^ 1 for a portal q of the leaf being inherited"""
        v = deep(e)
        for _ in range(4):
            if v.get("k") == "Ref" and self.D.get(v.get("id")) is not None:
                v = deep(self.D[v["id"]])
        if v.get("k") != "Bin" or v["op"] != "^" or cfg.cval(v["b"]) != 1:
            return False
        v = deep(v["a"])
        for _ in range(4):
            if v.get("k") == "Ref" and self.D.get(v.get("id")) is not None:
                v = deep(self.D[v["id"]])
        if v.get("k") != "Bin" or v["op"] != "-" or not any(x.get("n", "").split("::")[-1] == "portals" for x in walk(v["b"]) if x.get("k") == "Ref"):
            return False
        q = deep(v["a"])
        for _ in range(4):
            if q.get("k") == "Ref" and self.D.get(q.get("id")) is not None:
                q = deep(self.D[q["id"]])
        hs = loops.loops_of(self.B, self.cur.i)
        H = self.B.nodes[hs[0]] if hs else None
        if H is None or hs[0] == self.main:
            return False
        if H.extra and H.extra[0] == "rfor":
            return self.ofleaf(H.extra[2], env, I) and q.get("k") == "Ref" and (q.get("id") == H.extra[1] or any(
                x.ast is not None and x.ast.get("k") == "RVar" and x.ast["id"] == q.get("id") for x in self.B.nodes if x.i in loops.body(self.B, hs[0])))
        r = bound_of(self.B, hs[0])
        if isinstance(r, str) or start_of(self.B, hs[0], r[0]) != 0:
            return False
        bs = deep(r[1])
        if bs.get("k") != "Call" or short(bs) != "size" or not self.ofleaf(operands(bs)[0], env, I):
            return False
        o = operands(q) if q.get("k") == "Call" else [q.get("base"), q.get("idx")] if q.get("k") == "Index" else []
        return len(o) == 2 and self.ofleaf(o[0], env, I) and deep(o[1]).get("id") == r[0]

    def exits_ok(self, h, i):
        r = bound_of(self.B, h)
        bd = loops.body(self.B, h)
        if isinstance(r, str):
            return False
        return all(x == r[2].i for x in bd for s, l in self.B.nodes[x].succ if s == i)

    def ofleaf(self, e, env, I):
        """e is the portal list of the leaf behind the current portal"""
        p = I.path(e, env)
        return p is not None and p.endswith("[T.leaf].portals")

    def inherit(self, n, b, val, env, I):
        vb = bit(val)
        same = vb is not None and I.path(vb[0], env) == self.inbits and I.path(vb[1], env) == I.path(b[1], env)
        self.ob("target-pass", "inherit", same, n, "portals that need no test of their own keep the mark they came with")
        tw = self.twin(b[1], env, I)
        self.ob("target-pass", "inherit-which", tw, n, "the portals that inherit are those leading into the leaf that was just found visible: the pairs of the portals of that leaf")
        hs = loops.loops_of(self.B, n.i)
        if same and tw and hs and hs[0] != self.main:
            env["#iset"] = 1
            self.inhheads.add(hs[0])

    def isleaf(self, ix):
        return ix is not None and ix == "v:0.%s" % self.leafparam

    def isindex(self, e, env, I):
        v = deep(e)
        for _ in range(4):
            if v.get("k") == "Ref" and v.get("id") in self.D and self.D[v["id"]] is not None and v.get("id") != self.counter:
                v = deep(self.D[v["id"]])
        if v.get("k") == "Ref" and v.get("id") == self.counter:
            return True
        if v.get("k") == "Bin" and v["op"] == "-":
            return I.path(v["a"], env) == "T" and any(x.get("n", "").split("::")[-1] == "portals" for x in walk(v["b"]) if x.get("k") == "Ref")
        return False

    def on_narrow(self, n, e, p, lb, env, I):
        ix = p[len(lb):]
        ok, txt = e["op"] in ("=", "&="), []
        for x in andtree(e["b"]):
            q = I.path(x, env)
            base = q[:-len(ix)] if q is not None and q.endswith(ix) else None
            if base == "prev.mightsee" or base == "T.mightsee" or base == lb:
                continue
            if base == "T.visbits":
                txt.append("the finished set is used only for finished portals")
                ok = ok and env.get("#done") is True
            else:
                ok = False
                txt.append("%s is not a bound on what can be seen here" % model.path(x))
        self.ob("possible-set", "narrow", ok, n, "what may be seen through a portal is limited only by the previous limit and by the portal's own set. " + "; ".join(txt))
        hs = loops.loops_of(self.B, n.i)
        if hs and hs[0] != self.main:
            self.ob("possible-set", "narrow-all", self.full(hs[0], n), n, "the limit is computed for every block of leafs")

    def full(self, h, n, orexit=None):
        r = bound_of(self.B, h)
        if isinstance(r, str):
            return False
        vid, b, br, inc = r
        bd = loops.body(self.B, h)
        if start_of(self.B, h, vid) != 0 or not blocks(self.B, b, self.D):
            return False
        for i in bd:
            for s, l in self.B.nodes[i].succ:
                if s not in bd and i != br.i and not (orexit and self.B.nodes[i].kind == "br" and orexit(self.B.nodes[i], l)):
                    return False
        entry = [s for s, l in br.succ if s in bd][0]
        return loops.every_iteration(self.B, h, entry, n.i)[0]

    def on_more(self, n, e, leaves, neg, env, I):
        p = I.lpath(e["a"], env)
        lb = (env.get("L.mightsee") or (0, "?"))[1]
        ok = len(neg) == 1
        ix = None
        for x in leaves:
            y = strip(x["e"]) if x in neg else x
            q = I.path(y, env)
            if q is None or "[" not in q:
                ok = False
                continue
            base, j = q.rsplit("[", 1)
            ix = ix or j
            ok = ok and j == ix and (base == "VIS" if x in neg else base in (lb, "prev.mightsee", "T.mightsee") or base == "T.visbits" and env.get("#done") is True)
        self.ob("possible-set", "new", ok, n, "'nothing new' means: every leaf that may be seen through the portal is already marked")
        hs = loops.loops_of(self.B, n.i)
        self.ob("possible-set", "new-all", bool(hs) and hs[0] != self.main and self.full(hs[0], n, lambda b, l: l is True and I.path(b.ast, {}) == p), n,
                "'nothing new' is decided over every block of leafs")
        env[p] = ("MORE",)
        return True

    def on_flow(self, n, e, env, I):
        a = e["args"]
        self.ob("flow-on", "leaf", I.path(a[0], env) == "T.leaf", n, "the flow continues in the leaf behind the portal")
        self.ob("flow-on", "frame", any(I.path(x, env) == "L" for x in a), n, "the flow continues with the frame just filled")
        w = env.get("L.pass")
        self.ob("flow-on", "pass", w is not None and w[:2] == ("W", "T") and w[3] == "n", n, "the pass winding of the next step is what is left of this portal (%s here)" % (w and w[:2],))
        w = I.eval_path("L.source", env) if hasattr(I, "eval_path") else env.get("L.source")
        self.ob("flow-on", "source", w is not None and w[:2] == ("W", "S") and w[3] == "n", n, "the source winding of the next step is what is left of the source (%s here)" % (w and w[:2],))
        self.ob("flow-on", "plane", env.get("L.portalplane") == ("PL", "T", 1), n, "the frame carries the plane of this portal (%s here)" % (env.get("L.portalplane"),))
        self.ob("flow-on", "limit", env.get("#narrow") == 1, n, "the frame carries the limit computed for this portal")
        lf = env.get("L.leaf")
        self.ob("flow-on", "own-leaf", lf is not None and lf[0] == "PTR" and self.isleaf(lf[1].split("[")[-1].rstrip("]")), n, "the frame names the leaf it is in, so that a leaf is never entered twice on one path")
        self.ob("flow-on", "chain-end", env.get("L.next") == ("NULL",), n, "the frame is the last of the chain when the next step starts")
        env["L.next"] = ("OLD",)
        if env.get("#pp") != "0":
            miss = [k for k in range(4) if not env.get("#test%d" % k) and env.get("#maxlevel", 4) > k]
            self.ob("flow-on", "tests", not miss, n, "every separator test of the selected detail level has been applied (missing: %s)" % miss)
        env["#flow"] = 1
        return True

    # -- branches
    def branch(self, e, pol, env, I, truth=False):
        if truth:
            v = I.eval(e, env)
            p = I.path(e, env)
            if v is not None and v[0] == "W":
                if p == "prev.pass":
                    env["#pp"] = "n" if pol else "0"
                new = v[:3] + ("n" if pol else "0",) + v[4:]
                if v[4] != 1:
                    self.setw(env, v, new)
                    if not pol:
                        env["#why"] = "clipped away"
                return True
            if v == ("MORE",):
                if not pol:
                    env["#why"] = "nothing new"
                return True
            b = bit(e)
            if b is not None:
                q, ix = I.path(b[0], env), I.path(b[1], env)
                if q == "prev.mightsee" and ix == "T.leaf" and not pol:
                    env["#why"] = "cannot be seen"
                if self.local_is(q, env) and ix == "T.leaf" and pol:
                    env["#why"] = "already passed"
                    self.passed = True
                if q == self.inbits and self.inbits and self.isindex(b[1], env, I) and not pol:
                    env["#why"] = "excluded before"
                if q == "VIS" and self.isleaf(ix) and pol:
                    env["#marked"] = 1
                return True
            c = strip(e)
            if c.get("k") == "Call" and short(c) == "epsilonEqual" and len(c["args"]) >= 2 and pol:
                n1, n2 = I.eval(c["args"][0], env), I.eval(c["args"][1], env)
                if n1 is not None and n2 is not None and n1[0] == n2[0] == "N":
                    rs = {n1[1], n2[1]}
                    if "T" in rs and len(rs) == 2 and n1[2] != n2[2]:
                        env["#why"] = "coplanar, facing the other way"
            return True
        op, a, b = compare(e)
        for x, y, o in ((a, b, op), (b, a, absint.SWAP[op])):
            px, vy = I.path(x, env), I.eval(y, env)
            if o in ("==", "!="):
                pass
            if o in ("<", ">", "<=", ">=") and deep(x).get("id") == self.counter and self.counter and self.twin(y, env, I):
                r = rel_pol(o, pol)
                if r in (">", ">="):
                    env["#iwhy"] = 1
            if o in ("==", "!="):
                if px == "T.status" and vy is not None and vy[0] == "E":
                    if vy[1] == self.pstat_done:
                        env["#done"] = (o == "==") == pol
                if px is not None and px.endswith(".leaf") and not px.startswith("T.") and "leaf_t" in x.get("t", ""):
                    q = I.eval(y, env)
                    if q is not None and q[0] == "PTR" and self.isleaf(q[1].split("[")[-1].rstrip("]")) and (o == "==") == pol:
                        env["#onstack"] = 1
            if vy is not None and vy[0] == "E" and px is not None and px.endswith("level") or px is not None and px.endswith("level._value"):
                if vy is not None and vy[0] == "E":
                    k = vy[1]
                    lo, hi = None, None  # level in [lo, hi]
                    if o == ">":
                        lo, hi = (k + 1, None) if pol else (None, k)
                    elif o == ">=":
                        lo, hi = (k, None) if pol else (None, k - 1)
                    elif o == "<":
                        lo, hi = (None, k - 1) if pol else (k, None)
                    elif o == "<=":
                        lo, hi = (None, k) if pol else (k + 1, None)
                    if lo is not None:
                        env["#level"] = max(lo, env.get("#level", 0))
                    if hi is not None:
                        env["#maxlevel"] = min(hi, env.get("#maxlevel", 4))
                    if env.get("#level", 0) > env.get("#maxlevel", 4):
                        return False
        return True

    def local_is(self, q, env):
        v = env.get("L.mightsee")
        return q is not None and v is not None and v[0] == "PTR" and v[1] == q

    # -- per node
    def enter(self, n, env, I):
        i = n.i
        if i == self.main:
            if env.get("#in"):
                self.iteration_end(n, env)
            elif not self.zeroed:
                self.ob("separator-role", "cache-empty", all(env.get("L.numseparators[%d]" % k) == ("E", 0) for k in (0, 1)), n, "no separators are kept before the first portal")
            for k in list(env):
                if k.startswith("#rel:") or k in ("#in", "#why", "#flow", "#mark", "#narrow", "#done", "#level", "#maxlevel", "#pp", "#inh") or k.startswith("#test"):
                    if k != "#pp":
                        env.pop(k)
        elif i in self.mainbody and self.isbodystart(n):
            env["#in"] = 1
        self.cur = n
        for h in self.inhheads:
            bd = loops.body(self.B, h)
            if i == h:
                if env.get("#iin"):
                    self.ob("target-pass", "inherit-all", bool(env.get("#iset") or env.get("#iwhy")), n, "only portals whose turn has passed may be left out: the later ones into the same leaf are not tested again")
                for k in ("#iin", "#iset", "#iwhy"):
                    env.pop(k, None)
                env["#inh"] = 1
            elif i in bd:
                env["#iin"] = 1
            elif env.get("#iin"):
                # out of the loop from within an iteration
                self.ob("target-pass", "inherit-all", self.B.nodes[h].kind == "loop" and self.exits_ok(h, i), n, "every portal of the leaf is considered")
                for k in ("#iin", "#iset", "#iwhy"):
                    env.pop(k, None)
        if i in self.narrowheads:
            env["#narrow"] = 1
        for p in self.moreheads.get(i, ()):
            env[p] = ("MORE",)
        if i in self.sepheads:
            m = self.sepheads[i]
            for x in walk(m.ast):
                if x.get("k") == "Index":
                    b = strip(x["base"])
                    if b.get("k") == "Member" and b["f"] == "separators":
                        k = cfg.cval(x["idx"])
                        if k is not None:
                            env["#test%d" % k] = 1
        return None

    def leave(self, n, lab, env, I):
        if n.i in self.mainbody and n.i != self.main and env.get("#in"):
            pass
        # facts that only matter inside an iteration
        return None

    def iteration_end(self, n, env):
        why = env.get("#why")
        self.ends.append((env.get("#flow"), why))
        ok = bool(env.get("#flow")) or why is not None
        self.ob("skip-reason", "iteration", ok, n, "a portal is skipped without a geometric reason")
        if env.get("#flow") and self.outbits:
            self.ob("target-pass", "mark-portal", env.get("#mark") == 1, n, "a portal that passes every test is marked for the following steps")
            if self.passed:
                self.ob("target-pass", "inherit-done", env.get("#inh") == 1, n, "portals are skipped because their leaf has passed, so every leaf that passes hands their marks on")
            miss = [k for k in range(4) if not env.get("#test%d" % k) and env.get("#maxlevel", 4) > k]
            self.ob("target-pass", "tests", not miss, n, "every separator test of the selected detail level has been applied (missing: %s)" % miss)
        left = self.live(env)
        self.ob("winding-release", "iteration", not left, n, "every temporary winding is released by the end of the iteration")
        for k, v in list(env.items()):
            if type(v) is tuple and v[:1] == ("W",) and v[2] == "m" or v == ("FREED",) or type(v) is tuple and v[0] == "STALE":
                env.pop(k)

    def isbodystart(self, n):
        return n.i in self.starts


class I2(absint.Interp):
    def default(self, n, env):
        super().default(n, env)
        if n.ast.get("k") in ("Var", "Bin") or n.ast.get("op") == "=":
            for k in list(env):
                if k.startswith("#r:"):
                    del env[k]


def setup(S, main):
    B = S.B
    S.main = main
    S.mainbody = loops.body(B, main)
    H = B.nodes[main]
    S.counter = None
    S.ends = []
    S.starts = set()
    if H.extra and H.extra[0] == "rfor":
        S.starts = {s for s, l in H.succ if l == "iter"}
    else:
        r = bound_of(B, main)
        if isinstance(r, str):
            raise AnalysisBroken("portal loop of %s: %s" % (S.name, r))
        S.counter = r[0]
        S.starts = {s for s, l in r[2].succ if s in S.mainbody}
        S.exitbr = r[2].i


def narrowing(S):
    """heads of inner loops that write the local limit"""
    out = set()
    for n in S.B.nodes:
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Bin" and e["op"] in ("=", "&=") and strip(e["a"]).get("k") == "Index" and "int" in strip(e["a"]).get("t", ""):
            if any(x.get("k") == "Ref" and x.get("id") and S.pointsto_local(x["id"]) for x in walk(strip(e["a"])["base"])) or any(
                    x.get("k") == "Member" and x["f"] == "mightsee" and strip(x.get("base") or {}).get("id") == S.local for x in walk(strip(e["a"])["base"])):
                hs = loops.loops_of(S.B, n.i)
                if hs and hs[0] != S.main:
                    out.add(hs[0])
    return out


def pointsto_local(S, vid):
    d = S.D.get(vid)
    if d is None:
        return False
    for x in walk(d):
        if x.get("k") == "Member" and x["f"] == "mightsee" and deep(x.get("base") or {"k": "?"}).get("id") == S.local:
            return True
        if x.get("k") == "Ref" and x.get("id") and x["id"] != vid and "leafbits" in x.get("t", "") and x.get("dk") in ("local", "var", None) and x["id"] not in S.roots:
            return x["id"] in S.localbits
    return False


def run(ck):
    P = ck.load("vis", "common")
    f = P.fn("RecursiveLeafFlow")
    pstat = P.enums["pstatus_t"]["e"] if "pstatus_t" in P.enums else {}
    check_flow(ck, P, f, pstat, False)
    check_flow(ck, P, P.fn("TargetChecks"), pstat, True)
    check_separators(ck, P)
    check_clip(ck, P)
    check_base(ck, P)
    check_fold(ck, P, "set_winding_sphere", "max")
    check_fold(ck, P, "distFromPortal", "min")
    check_bits(ck, P)
    check_chain(ck, P)
    check_start(ck, P)
    for g, n in (("clip-role", 4), ("separator-role", 8), ("skip-reason", 1), ("separator-plane", 8), ("clip-points", 4), ("base-portal", 3), ("point-bound", 2), ("bit-set", 3)):
        ck.floor(g, n)


def pst(t):
    return "pstack_t" in t


def check_flow(ck, P, f, pstat, target):
    B = cfg.Builder(P, inline=inl, max_depth=4).build(f)
    head = prev = None
    if target:
        it = P.fn("IterativeTargetChecks")
        ps = {p["id"] for p in it["params"]}
        for x in model.fn_nodes(it):
            if x.get("k") == "Call" and short(x) == "TargetChecks":
                for i, a in enumerate(x["args"]):
                    if pst(a.get("t", "")):
                        r = deep(a)
                        if r.get("k") == "Ref" and r.get("id") in ps:
                            head = f["params"][i]["id"]
                        else:
                            prev = f["params"][i]["id"]
    else:
        for p in f["params"]:
            if pst(p["t"]):
                prev = p["id"]
    if prev is None or target and head is None:
        raise AnalysisBroken("frames of %s not recognised" % f["n"])
    S = Vis(ck, P, B, short(f), head, prev)
    S.pool = 3
    for r in P.recs.get("pstack_t", {}).get("fields", []):
        if r.get("n") == "windings":
            import re
            m = re.search(r"\[(\d+)\]", r["t"])
            if m:
                S.pool = int(m.group(1))
    S.pstat_done = {k.split("::")[-1]: v for k, v in (pstat.items() if isinstance(pstat, dict) else [(x["n"], x["v"]) for x in pstat])}.get("pstat_done")
    S.leafparam = next((p["id"] for p in f["params"] if p["t"].replace("const ", "") in ("int", "size_t", "unsigned long")), None)
    S.outbits = S.inbits = None
    S.localbits = {n.ast["id"] for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and n.ast["t"] == "leafbits_t"}
    S.pointsto_local = lambda vid: pointsto_local(S, vid)
    if target:
        it = P.fn("IterativeTargetChecks")
        lb = [p["id"] for p in f["params"] if "leafbits_t" in p["t"]]
        # the incoming set is tested, the outgoing one is written
        wr = set()
        for n in B.nodes:
            e = n.ast
            if n.kind == "ev" and e is not None and e.get("k") == "Call" and e.get("op") == "=" and len(operands(e)) == 2:
                b = bit(operands(e)[0])
                if b is not None and deep(b[0]).get("k") == "Ref":
                    wr.add(deep(b[0]).get("id"))
        outs = [i for i in lb if "0.%s" % i in wr]
        ins = [i for i in lb if "0.%s" % i not in wr]
        if len(outs) != 1 or len(ins) != 1:
            raise AnalysisBroken("portal sets of %s not recognised" % f["n"])
        S.outbits, S.inbits = "v:0.%s" % outs[0], "v:0.%s" % ins[0]
    if target:
        marks = []
        for n in B.nodes:
            e = n.ast
            if n.kind == "ev" and e is not None and e.get("k") == "Call" and short(e) == "ClipToSeparators":
                marks.append(n)
    else:
        marks = S.rec
    heads = set()
    for n in marks:
        hs = loops.loops_of(B, n.i)
        if hs:
            heads.add(hs[-1] if not target else hs[-1])
    if len(heads) != 1:
        raise AnalysisBroken("portal loop of %s not recognised" % f["n"])
    setup(S, heads.pop())
    S.narrowheads = narrowing(S)
    S.moreheads = {}
    for n in B.nodes:
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Bin" and e["op"] == "|=" and strip(e["a"]).get("k") == "Ref" and any(
                x.get("k") == "Un" and x["op"] == "~" for x in andtree(e["b"])):
            hs = loops.loops_of(B, n.i)
            if hs and hs[0] != S.main:
                S.moreheads.setdefault(hs[0], []).append("v:%s" % strip(e["a"])["id"])
    I = I2(B, S)
    S.obs = {}
    I = I2(B, S)  # again, now that the inheriting loops are known
    coverage(S, f, target, I)
    S.ck = ck; S.publish()


def coverage(S, f, target, I):
    """every portal of the leaf (of the map) is looked at, and the results are handed over at every exit"""
    B = S.B
    H = B.nodes[S.main]
    bd = S.mainbody
    out = [(i, s, l) for i in bd for s, l in B.nodes[i].succ if s not in bd and not loops.terminal(B, s, B.nodes[i], l)]
    if H.extra and H.extra[0] == "rfor":
        ps = {I.path(H.extra[2], dict(s)) for s in I.F.states(H)}
        ok = not target and len(ps) == 1 and ps.pop().endswith("[v:0.%s].portals" % S.leafparam)
        ok = ok and all(i == S.main and l == "done" for i, s, l in out)
    else:
        r = bound_of(B, S.main)
        b = deep(r[1])
        for _ in range(3):
            if b.get("k") == "Ref" and S.D.get(b.get("id")) is not None:
                b = deep(S.D[b["id"]])
        ok = start_of(B, S.main, r[0]) == 0 and all(i == r[2].i for i, s, l in out)
        if target:
            ok = ok and allportals(b)
        else:
            ps = {I.path(b, dict(s)) for s in I.F.states(r[2])}
            ok = ok and len(ps) == 1 and (ps.pop() or "").endswith("[v:0.%s].portals.size()" % S.leafparam)
        entry = [s for s, l in r[2].succ if s in bd][0]
        # the portal looked at is the one the counter names
        for t in S.tv:
            ass = loops.assigned_in(B, t, bd)
            vs = [n for n in B.nodes if n.i in bd and n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and n.ast["id"] == t]
            named = False
            if len(ass) == 1 and ass[0][1].get("k") == "Bin" and ass[0][1]["op"] == "=" and not vs:
                vs, ass = [B.nodes[ass[0][0]]], []
            if ass and not vs:
                st = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.i not in bd and (n.ast.get("k") == "Bin" and n.ast["op"] == "=" and deep(n.ast["a"]).get("id") == t or n.ast.get("k") == "Var" and n.ast["id"] == t and n.ast.get("init") is not None)]
                ini = {model.path(deep(n.ast.get("b") or n.ast.get("init"))) for n in st}
                named = len(ass) == 1 and loops.step_ok(ass[0][1]) and loops.every_iteration(B, S.main, entry, ass[0][0])[0] and len(st) == 1 and all(
                    "portals" in x and ("data" in x or "begin" in x or "[0]" in x) for x in ini)
                # no use between the two increments
                if named:
                    between = loops.reach_from(B, [ass[0][0]], stop=(S.main,)) | loops.reach_from(B, [r[3]], stop=(S.main,))
                    named = not any(x in S.B.nodes and False for x in ()) and all(
                        B.nodes[x].kind != "ev" or x in (ass[0][0], r[3]) or B.nodes[x].ast is None for x in loops.reach_from(B, [ass[0][0]], stop=(S.main,)) & bd)
            elif not ass and len(vs) == 1:
                e = deep(vs[0].ast.get("init") or vs[0].ast.get("b") or {"k": "?"})
                while e.get("k") == "Un" and e["op"] in ("&", "*"):
                    e = deep(e["e"])
                o = operands(e) if e.get("k") == "Call" else [e.get("base"), e.get("idx")] if e.get("k") == "Index" else [e["a"], e["b"]] if e.get("k") == "Bin" and e["op"] == "+" else []
                named = len(o) == 2 and deep(o[1]).get("id") == r[0] and (any(x.get("n", "").split("::")[-1] == "portals" for x in walk(o[0]) if x.get("k") == "Ref") or
                                                                         any(x.get("k") == "Member" and x["f"] == "portals" for x in walk(o[0])))
            S.ob("coverage", "portal-of-counter", named, H, "the portal and its number advance together")
    S.ob("coverage", "all-portals", ok, H, "every portal %s is considered, and the loop is not left early" % ("of the map, in both directions," if target else "of the leaf"))
    for s in I.F.states(B.exit):
        env = dict(s)
        if target:
            S.ob("target-pass", "handed-over", bool(env.get("#whole") or env.get("#xfer")), B.entry, "the marks are handed on whichever way the check ends")
        else:
            S.ob("leaf-visible", "marked", bool(env.get("#marked") or env.get("#onstack")), B.entry, "a leaf the flow enters is marked visible (unless the path is already in it)")


def allportals(b):
    b = deep(b)
    return any(x.get("k") == "Ref" and x["n"].split("::")[-1] in ("numportals", "portals") for x in walk(b)) and (
        b.get("k") == "Call" and short(b) == "size" or b.get("k") == "Bin" and (b["op"] == "*" and 2 in (cfg.cval(b["a"]), cfg.cval(b["b"])) or b["op"] == "<<" and cfg.cval(b["b"]) == 1))


class Chain(absint.Sem):
    """the pass over the frames of a path that narrows their limits"""

    def __init__(self, B, name, head):
        self.B, self.name, self.head = B, name, head
        self.obs = {}
        ev = [n for n in B.nodes if n.kind == "ev" and n.ast is not None]
        self.frame = {n.ast["id"] for n in ev if n.ast.get("k") == "Var" and pst(n.ast["t"]) and loops_in(B, n) is not None}
        self.calls = [n for n in ev if n.ast.get("k") == "Call" and short(n.ast) == "TargetChecks"]
        hs = {loops.loops_of(B, n.i)[-1] for n in self.calls if loops.loops_of(B, n.i)}
        if len(hs) != 1:
            raise AnalysisBroken("frame loop of %s not recognised" % name)
        self.main = hs.pop()
        self.D = flow.defs(B)
        # the running frame: the variable of the loop condition
        self.var = None
        for n in B.nodes:
            if n.kind == "br" and n.i in loops.body(B, self.main) and any(s not in loops.body(B, self.main) for s, l in n.succ):
                for x in walk(n.ast):
                    if x.get("k") == "Ref" and pst(x.get("t", "")):
                        self.var = x["id"]
        if self.var is None:
            raise AnalysisBroken("running frame of %s not recognised" % name)

    ob = Vis.ob
    publish = Vis.publish

    def root(self, e, env, I):
        i = e.get("id")
        if i == "0.%s" % self.head:
            return "head"
        if i == self.var:
            return "X"
        return None

    def value(self, e, env, I):
        if e.get("k") == "Call" and short(e) == "data" and len(operands(e)) == 1 and "leafbits" in operands(e)[0].get("t", ""):
            p = I.path(operands(e)[0], env)
            return p and ("PTR", p)
        if e.get("k") == "Member" and e["f"] in ("next", "mightsee") and "*" in e["t"]:
            p = I.path(e, env)
            return ("PTR", p) if p in ("X.next", "X.mightsee", "X.next.mightsee") else None
        return None

    def event(self, n, env, I):
        e = n.ast
        k = e.get("k")
        if k == "Call" and short(e) in ("setall", "clear") and len(operands(e)) == 1:
            p = I.path(operands(e)[0], env)
            env["#set:%s" % p] = "all" if short(e) == "setall" else "none"
            return True
        if k == "Call" and short(e) == "TargetChecks":
            a = [x for x in e["args"]]
            ps = [I.path(x, env) for x in a]
            fr = [p for x, p in zip(a, ps) if pst(x.get("t", ""))]
            lb = [p for x, p in zip(a, ps) if "leafbits_t" in x.get("t", "")]
            self.ob("target-chain", "frames", fr == ["head", "X"], n, "each frame of the path is checked against its head (%s)" % fr)
            self.ob("target-chain", "marks", len(lb) == 2 and env.get("#set:%s" % lb[0]) in ("all", "kept") and env.get("#set:%s" % lb[1]) == "none" and lb[0] != lb[1], n,
                    "the marks start with every portal set, and each step gets those of the step before it")
            if len(lb) == 2:
                env["#set:%s" % lb[1]] = "kept"
                env["#set:%s" % lb[0]] = "used"
                self.bits = lb[0]
            return True
        if k == "Call" and e.get("op") == "=" and len(operands(e)) == 2 and "leafbits" in operands(e)[0].get("t", ""):
            p, q = I.path(operands(e)[0], env), I.path(operands(e)[1], env)
            env["#set:%s" % p] = env.get("#set:%s" % q, "?")
            return True
        if k == "Var" and "leafbits_t" == e["t"]:
            env["#set:v:%s" % e["id"]] = "none"
            return True
        if k == "Bin" and e["op"] == "=" and deep(e["a"]).get("id") == self.var or k == "Var" and e["id"] == self.var:
            r = e.get("b") or e.get("init")
            p = I.path(r, env)
            p = {"X.next": "next"}.get(p, p)
            self.ob("target-chain", "walk", p == ("next" if env.get("#started") else "head"), n, "the frames are visited from the head along the path")
            env["#started"] = 1
            for kk in list(env):
                if kk.startswith(("X.", "#rel:X")) or type(env[kk]) is tuple and env[kk][0] == "PTR" and env[kk][1].startswith("X."):
                    env.pop(kk)
            return True
        if k == "Bin" and e["op"].endswith("=") and e["op"] not in absint.CMP and strip(e["a"]).get("k") in ("Index", "Un") and "unsigned" in strip(e["a"]).get("t", ""):
            p = I.path(e["a"], env)
            if p is not None and ".mightsee[" in p:
                ix = p[p.rindex("["):]
                qs = [I.path(x, env) for x in andtree(e["b"])]
                if e["op"] == "=":
                    ok = p in qs and all(q in (p, "X.mightsee" + ix) for q in qs)
                else:
                    ok = e["op"] == "&=" and all(q == "X.mightsee" + ix for q in qs)
                self.ob("target-chain", "narrow", ok and p == "X.next.mightsee" + ix, n, "the limit of the next frame is cut by the limit of this one, and by nothing else")
        return False


def loops_in(B, n):
    return True


def check_chain(ck, P):
    f = P.fn("IterativeTargetChecks")
    B = cfg.Builder(P, inline=lambda fn, c, d: inl(fn, c, d) and fn.get("cls") != "leafbits_t", max_depth=3).build(f)
    head = next((p["id"] for p in f["params"] if pst(p["t"])), None)
    S = Chain(B, "IterativeTargetChecks", head)
    I = absint.Interp(B, S)
    S.ck = ck; S.publish()
    for n in S.calls:
        ck.ob("target-chain", "IterativeTargetChecks:reached", bool(I.F.states(n)), n.where(), "the frames are checked")


def result_is(B, data, I):
    i = deep(data)
    while i.get("k") == "Un":
        i = deep(i["e"])
    for n in B.nodes:
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Var" and e["id"] == i.get("id") and e.get("init") is not None:
            v = strip(e["init"])
            a = v.get("c") or v.get("args") or []
            if isinstance(a, list) and a:
                return I.path(a[0], {}) == "P.visbits"
    return False


# ---------------------------------------------------------------- sign of distances
class Geo(absint.Sem):
    """distances of points from planes and their comparison with tolerances"""

    def __init__(self, name, roots):
        self.name, self.roots = name, roots
        self.obs = {}

    ob = Vis.ob
    publish = Vis.publish

    def root(self, e, env, I):
        return self.roots.get(e.get("id"))

    def tol(self, e, env, I):
        """(sign, name) of a tolerance, or None"""
        e = deep(e)
        if e.get("k") == "Un" and e["op"] == "-":
            r = self.tol(e["e"], env, I)
            return r and (-r[0], r[1])
        if e.get("k") == "Float":
            return (1 if e["v"] > 0 else -1 if e["v"] < 0 else 0, "const") if e["v"] else (0, "const")
        if e.get("k") == "Ref" and e.get("gk") and "double" in e.get("t", "") + "float" * ("float" in e.get("t", "")):
            return (1, "eps")
        if e.get("k") == "Ref" and e.get("gk") and "float" in e.get("t", ""):
            return (1, "eps")
        if cfg.cval(e) == 0:
            return (0, "const")
        p = I.path(e, env)
        if p is not None and p.endswith(".radius"):
            return (1, p)
        return None

    def dist(self, e, env, I):
        v = I.eval(e, env)
        return v if v is not None and v[0] == "DIST" else None

    def value(self, e, env, I):
        if e.get("k") == "Call" and short(e) in ("distance_to", "distAbove", "dist_to") and len(operands(e)) == 2:
            pl, pt = operands(e)
            pv = I.eval(pl, env)
            pp = pv if pv is not None and pv[0] == "SV" else ("PATH", I.path(pl, env))
            return ("DIST", pp, I.path(pt, env))
        if e.get("k") == "Ref" and e.get("id") in self.roots and "*" in e.get("t", ""):
            return ("PTR", self.roots[e["id"]])
        return None

    def sided(self, e, env, I):
        """(DIST, relation, tolerance) of a comparison: relation in < > <= >="""
        c = compare(e)
        if not c:
            return None
        op, a, b = c
        d = self.dist(a, env, I)
        if d is not None:
            t = self.tol(b, env, I)
            return t and (d, op, t)
        d = self.dist(b, env, I)
        if d is not None:
            t = self.tol(a, env, I)
            return t and (d, absint.SWAP[op], t)
        # any linear form: distance +- tolerance against a constant
        ds, ts = {}, {}

        def leaf(x):
            v = self.dist(x, env, I)
            if v is not None:
                ds[repr(v)] = v
                return poly.atom(repr(v))
            y = deep(x)
            if y.get("k") in ("Un", "Bin"):
                return None
            t = self.tol(x, env, I)
            if t is not None and t[1] != "const":
                ts[t[1]] = t
                return poly.atom(t[1]) if t[0] > 0 else poly.atom(t[1]).neg()
            return None
        l, r = poly.build(a, leaf), poly.build(b, leaf)
        if l is None or r is None or len(ds) != 1:
            return None
        z = l - r
        k = list(ds)[0]
        co = z.n.get((k,))
        rest = {m: c for m, c in z.n.items() if m != (k,)}
        if co not in (1, -1) or z.d != poly.ONE or len(rest) > 1:
            return None
        if co == -1:
            op = absint.SWAP[op]
        if not rest:
            return ds[k], op, (0, "const")
        (m, c), = rest.items()
        sg = -c * co  # d op sg*m
        if m == ():
            return ds[k], op, (1 if sg > 0 else -1, "const")
        if len(m) == 1 and sg in (1, -1):
            return ds[k], op, (int(sg), m[0])
        return None


def rel_pol(op, pol):
    return op if pol else absint.CMP[op]


# ---------------------------------------------------------------- ClipToSeparators
class Sep(Geo):
    def __init__(self, B, name, roots, test):
        super().__init__(name, roots)
        self.B, self.test = B, test
        self.sepid = {n.ast["id"] for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and n.ast["t"].startswith("qplane3")}
        self.clips = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and short(n.ast) == "ClipStackWinding"]
        inner = set()
        for n in B.nodes:
            if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and short(n.ast) == "distance_to" and deep(operands(n.ast)[0]).get("id") in self.sepid:
                inner |= set(loops.loops_of(B, n.i)[:1])
        self.outer = {n.i for n in B.nodes if n.kind == "loop"} - inner
        self.inner = inner
        self.innerctr = {"v:%s" % r[0] for r in (bound_of(B, h) for h in inner) if not isinstance(r, str)}
        self.assigned = set()

    def vec(self, e, env, I):
        """(from, to) point paths of a difference vector"""
        v = I.eval(e, env)
        return v[1:] if v is not None and v[0] == "VEC" else None

    def value(self, e, env, I):
        r = super().value(e, env, I)
        if r is not None:
            return r
        k = e.get("k")
        if k == "Ref" and e.get("id") in self.sepid:
            n, d = env.get("v:%s.normal" % e["id"]), env.get("v:%s.dist" % e["id"])
            if n is not None and n[0] == "SG":
                return ("SV", n[1], d == ("D", n[1], n[2]), n[2])
            return None
        ops = operands(e) if k == "Call" else ()
        if k == "Call" and e.get("op") == "-" and len(ops) == 1:
            v = I.eval(ops[0], env)
            if v is not None and v[0] == "SV":
                return ("SV", -v[1], v[2], v[3])
            if v is not None and v[0] == "SG":
                return ("SG", -v[1], v[2])
            if v is not None and v[0] == "VEC":
                return ("VEC", v[2], v[1])
        if k == "Call" and e.get("op") == "-" and len(ops) == 2:
            a, b = I.path(ops[0], env), I.path(ops[1], env)
            if a and b:
                return ("VEC", b, a)
        if k == "Call" and short(e) == "cross" and len(e["args"]) == 2:
            a, b = self.vec(e["args"][0], env, I), self.vec(e["args"][1], env, I)
            if a and b:
                pts = "|".join(sorted(set(a + b)))
                s = self.orient(a, b)
                if s:
                    return ("SG", s, pts)
                s = self.orient(b, a)
                if s:
                    return ("SG", -s, pts)
        if k == "Call" and short(e) == "dot" and len(e["args"]) == 2:
            for x, y in (e["args"], e["args"][::-1]):
                v = I.eval(y, env)
                p = I.path(x, env)
                if v is not None and v[0] == "SG" and p and p in v[2].split("|"):
                    return ("D", v[1], v[2])
        if k == "Call" and short(e) == "normalize" and len(ops) == 1:
            return I.eval(ops[0], env)
        return None

    def orient(self, a, b):
        """+1 if a runs along an edge of X in winding order and b from that edge to a point of Y"""
        def idx(p, w):
            return p[2:-1] if p.startswith(w + "[") else None
        f, t = idx(a[0], "X"), idx(a[1], "X")
        if f is None or t is None or idx(b[0], "X") not in (f, t) or idx(b[1], "Y") is None:
            return 0
        if t == f + "+1":
            return 1
        if f == t + "+1":
            return -1
        return 0

    def event(self, n, env, I):
        e = n.ast
        if e.get("k") == "Call" and e.get("op") == "=" and len(operands(e)) == 2:
            a, b = operands(e)
            x = deep(a)
            v = I.eval(b, env)
            p = I.lpath(a, env)
            if x.get("k") == "Ref" and x.get("id") in self.sepid:
                if v is not None and v[0] == "SV":
                    env["v:%s.normal" % x["id"]] = ("SG", v[1], v[3])
                    env["v:%s.dist" % x["id"]] = ("D", v[1] if v[2] else 0, v[3])
                else:
                    env.pop("v:%s.normal" % x["id"], None)
                return True
            if p is not None and ".separators[" in p:
                self.final(n, v, env, "cache")
                self.ob("separator-plane", "cache:slot", self.test < 2 and p.split(".separators[")[1].startswith("%d]" % self.test), n, "separators are kept per test, for tests 0 and 1")
                return True
        if e.get("k") == "Call" and e.get("op") in ("*=", "/=") and len(operands(e)) == 2:
            return True  # scaled by a positive length
        if e.get("k") == "Bin" and e["op"] == "=" and strip(e["b"]).get("k") == "Call" and short(strip(e["b"])) == "ClipStackWinding":
            self.assigned.add(id(strip(e["b"])))
            self.ob("separator-plane", "result", I.lpath(e["a"], env) == "Z", n, "what is left of the target replaces it")
            return False
        if e.get("k") == "Call" and short(e) == "ClipStackWinding":
            self.ob("separator-plane", "target", I.path(e["args"][1], env) == "Z" and I.path(e["args"][2], env) == "K", n, "the target is what is clipped")
            self.final(n, I.eval(e["args"][3], env), env, "clip")
            return True
        return False

    def final(self, n, v, env, what):
        side = env.get("#side")
        ok = v is not None and v[0] == "SV" and side is not None
        want = None
        if ok:
            base = 1 if side == "front" else -1
            want = base * (-1 if self.test & 1 else 1)
            self.ob("separator-plane", "%s:orientation" % what, v[1] == want and v[2], n,
                    "for test %d with the pass point in %s of the source plane the separator must be %s" % (self.test, side, "as built" if want > 0 else "reversed"))
            self.ob("separator-plane", "%s:separates" % what, env.get("#chk") == base and env.get("#pos") == 1 and not env.get("#neg") and env.get("#complete") == 1 and not env.get("#partial"), n,
                    "a plane is used only when no point of the pass winding lies behind it and at least one lies in front")
        else:
            self.ob("separator-plane", "%s:orientation" % what, False, n, "the plane or the side of the pass point is not established (%s, %s)" % (v, side))

    def branch(self, e, pol, env, I, truth=False):
        c = compare(e)
        if c and not truth and c[0] in ("==", "!=") and (c[0] == "==") == pol:
            a, b = I.path(c[1], env), I.path(c[2], env)
            for i in self.sepid:
                v = env.get("v:%s.normal" % i)
                if v is not None and a and b and {"Y[%s]" % a, "Y[%s]" % b} & set(v[2].split("|")):
                    env["#own"] = 1
        if c and not truth:
            # points before the plane's own: with the points tried in order, the first whose successors are all in front is the extreme one
            op, a, b = rel_pol(c[0], pol), I.path(c[1], env), I.path(c[2], env)
            if op in (">", ">="):
                op, a, b = absint.SWAP[op], b, a
            if op in ("<", "<=") and a and b and a in self.innerctr:
                for i in self.sepid:
                    v = env.get("v:%s.normal" % i)
                    if v is not None and "Y[%s]" % b in v[2].split("|"):
                        env["#own"] = 1
        s = self.sided(e, env, I)
        if s:
            (_, pl, pt), op, (sg, nm) = s
            op = rel_pol(op, pol)
            if pl[0] == "SV" and pt and pt.startswith("Y["):
                env["#cmp"] = pt
            if pl == ("PATH", "XP") and pt and pt.startswith("Y["):
                sd = env.get("#side")
                if sd == "front" and env.get("#sidept") == pt and (op == "<" and sg <= 0 or op == "<=" and sg <= 0):
                    return False
                if sd == "back" and env.get("#sidept") == pt and (op == ">" and sg >= 0 or op == ">=" and sg >= 0):
                    return False
                if op in ("<", ">") and (sg <= 0 if op == "<" else sg >= 0):
                    env["#sidept"] = pt
                if op == "<" and sg <= 0:
                    env["#side"] = "back"
                elif op == ">" and sg >= 0:
                    env["#side"] = "front"
            elif pl[0] == "SV" and pt and pt.startswith("Y["):
                if op == "<":
                    env["#chk"] = pl[1] if env.get("#chk", pl[1]) == pl[1] and pl[2] else 0
                    env["#neg"] = 1
                    self.ob("separator-plane", "tolerance", sg <= 0, self.B.entry, "points behind the plane are those beyond the tolerance")
                elif op == ">" and sg >= 0:
                    env["#chk"] = pl[1] if env.get("#chk", pl[1]) == pl[1] and pl[2] else 0
                    env["#pos"] = 1
        return True

    def leave(self, n, lab, env, I):
        for h in self.inner:
            r = bound_of(self.B, h)
            if not isinstance(r, str) and n.i == r[2].i and any(l == lab and s not in loops.body(self.B, h) for s, l in n.succ):
                env.pop("#kin", None)
                env["#complete"] = 1
        return None

    def enter(self, n, env, I):
        for h in self.inner:
            r = bound_of(self.B, h)
            if isinstance(r, str):
                continue
            if n.i == h:
                if env.get("#kin"):
                    self.ob("separator-plane", "compared", env.get("#own") == 1 or env.get("#cmp") == "Y[v:%s]" % r[0], n, "every point of the pass winding, except the one the plane was made with, is compared with the plane")
                for k in ("#kin", "#own", "#cmp"):
                    env.pop(k, None)
            elif any(s == n.i and s in loops.body(self.B, h) for s, l in r[2].succ):
                env["#kin"] = 1
            elif n.i not in loops.body(self.B, h) and env.get("#kin"):
                env.pop("#kin")
                env["#partial"] = 1
        if n.i in self.outer:
            for k in ("#side", "#sidept", "#complete", "#partial", "#chk", "#neg", "#pos"):
                env.pop(k, None)
            for i in self.sepid:
                env.pop("v:%s.normal" % i, None)
                env.pop("v:%s.dist" % i, None)
            for k in list(env):
                if k.startswith("#rel:"):
                    env.pop(k)
        return None


def check_separators(ck, P):
    f = P.fn("ClipToSeparators")
    B = cfg.Builder(P, inline=inl, max_depth=3).build(f)
    ids = ["0.%s" % p["id"] for p in f["params"]]
    if len(ids) < 7:
        raise AnalysisBroken("parameters of ClipToSeparators not recognised")
    roots = dict(zip(ids[1:7], ("X", "XP", "Y", "Z", "TEST", "K")))
    for t in range(4):
        S = Sep(B, "ClipToSeparators", roots, t)
        I = absint.Interp(B, S, init={"TEST": ("E", t)})
        for n in S.clips:
            S.ob("separator-plane", "reached", bool(I.F.states(n)), n, "the separator is applied in test %d" % t)
            S.ob("separator-plane", "result-used", id(n.ast) in S.assigned or any(id(x) in S.assigned for x in [n.ast]), n, "what is left of the target replaces it")
        for (g, key, i), o in list(S.obs.items()):
            S.obs[(g, "test%d:%s" % (t, key), i)] = S.obs.pop((g, key, i))
        S.ck = ck; S.publish()
        # every pass point is looked at
        for h in S.inner:
            if t == 0:
                r = bound_of(B, h)
                ok = not isinstance(r, str) and start_of(B, h, r[0]) == 0 and {I.path(r[1], dict(s)) for s in I.F.states(r[2])} == {"Y.size()"}
                ck.ob("separator-plane", "ClipToSeparators:all-points", ok, B.nodes[h].where(), "every point of the pass winding is compared with the candidate plane")


# ---------------------------------------------------------------- ClipStackWinding
class Clip(Geo):
    def __init__(self, B, name, roots, sides):
        super().__init__(name, roots)
        self.B = B
        self.D = flow.defs(B)
        self.code = sides  # name -> code
        self.byc = {v: k[0] for k, v in sides.items()}  # code -> F B O
        ev = [n for n in B.nodes if n.kind == "ev" and n.ast is not None]
        self.push = [n for n in ev if n.ast.get("k") == "Call" and short(n.ast) in ("push_back", "emplace_back")]
        self.new = {n.ast["id"] for n in ev if n.ast.get("k") == "Var" and n.ast.get("init") is not None and any(
            x.get("k") == "Call" and short(x) == "AllocStackWinding" for x in walk(n.ast["init"]))}
        self.sidearr = set()
        for n in ev:
            e = n.ast
            if e.get("k") == "Bin" and e["op"] == "=" and strip(e["a"]).get("k") == "Index" and "int" in strip(e["a"]).get("t", "") and cfg.cval(e["b"]) is not None:
                b = deep(strip(e["a"])["base"])
                if b.get("k") == "Ref":
                    self.sidearr.add("v:%s" % b.get("id"))
        for n in ev:
            e = n.ast
            if e.get("k") == "Un" and "++" in e["op"] and strip(e["e"]).get("k") == "Index":
                i, b = deep(strip(e["e"])["idx"]), deep(strip(e["e"])["base"])
                if i.get("k") == "Index" and "v:%s" % deep(i["base"]).get("id") in self.sidearr and b.get("k") == "Ref":
                    self.cnt = "v:%s" % b["id"]
        hs = {loops.loops_of(B, n.i)[0] for n in self.push if loops.loops_of(B, n.i)}
        if len(hs) != 1:
            raise AnalysisBroken("clipping loop not recognised")
        self.head = hs.pop()
        self.body = loops.body(B, self.head)
        r = bound_of(B, self.head)
        self.bound = r
        if isinstance(r, str):
            raise AnalysisBroken("clipping loop: " + r)
        self.ctr = "v:%s" % r[0]
        self.start = {s for s, l in r[2].succ if s in self.body}

    def code_of(self, p):
        """'cur'/'next' if p is the side of the current / following point"""
        if p is None or "[" not in p:
            return None
        b, i = p.split("[", 1)
        if b not in self.sidearr:
            return None
        return {self.ctr: "cur", self.ctr + "+1": "next"}.get(i[:-1])

    def event(self, n, env, I):
        e = n.ast
        k = e.get("k")
        if k == "Var" and e["id"] in self.new:
            env["#new"] = 1
            return True
        if k == "Call" and short(e) == "FreeStackWinding":
            p = self.who(e["args"][0], env, I)
            self.ob("winding-release", "free:%s" % p, p in ("IN", "NEW") and not env.get("#freed:%s" % p), n, "a winding is released once")
            env["#freed:%s" % p] = 1
            if p == "NEW":
                env.pop("#new", None)
            return True
        if n in self.push:
            p = I.path(operands(e)[1], env)
            self.ob("clip-points", "room", env.get("#room") == 1, n, "a point is added only after testing that there is room")
            env.pop("#room", None)
            if p == "IN[%s]" % self.ctr:
                self.ob("clip-points", "once", not env.get("#p1") and not env.get("#mid"), n, "a point is kept once, before the crossing point of its edge")
                env["#p1"] = 1
            elif p is not None and p.startswith("IN["):
                self.ob("clip-points", "once", False, n, "only the current point of the winding is kept")
            else:
                self.ob("clip-points", "once", not env.get("#mid"), n, "one crossing point is added per edge")
                env["#mid"] = 1
            return True
        if k == "Bin" and e["op"] == "=" and strip(e["a"]).get("k") == "Index":
            p = I.lpath(e["a"], env)
            if p is not None and p.split("[")[0] in self.sidearr:
                c = cfg.cval(e["b"])
                if c in self.byc:
                    w = self.byc[c]
                    ok = {"F": env.get("#gt") == 1, "B": env.get("#lt") == 1, "O": env.get("#gt") == 0 and env.get("#lt") == 0}[w]
                    self.ob("clip-points", "side:%s" % w, ok and env.get("#pt") == "IN[%s]" % p.split("[")[1][:-1], n, "points beyond the tolerance are in front or behind, the others on the plane")
                    env["#side"] = w
                    return True
        if k == "Return":
            self.ret(n, e, env, I)
        return False

    cnt = None

    def who(self, e, env, I):
        p = I.path(e, env)
        if p == "IN":
            return "IN"
        x = deep(e)
        if x.get("k") == "Ref" and x.get("id") in self.new:
            return "NEW"
        return p

    def ret(self, n, e, env, I):
        v = e.get("e")
        null = v is None or absint.deep(v).get("k") == "Null" or I.eval(v, env) == ("NULL",)
        w = None if null else self.who(v, env, I)
        if null:
            self.ob("clip-result", "none", env.get("#out") == 1 or env.get("#nofront") == 1 and env.get("#allon") == 0, n,
                    "nothing is left only when the whole winding lies behind the plane and not on it")
            self.ob("winding-release", "none", env.get("#freed:IN") == 1 and not env.get("#new"), n, "a winding that was clipped away is released")
        elif w == "NEW":
            self.ob("clip-result", "part", env.get("#done") == 1, n, "the clipped winding is returned only after every edge was handled")
            self.ob("winding-release", "part", env.get("#freed:IN") == 1 and not env.get("#freed:NEW"), n, "the clipped winding replaces the one it came from")
        elif w == "IN":
            self.ob("winding-release", "whole", not env.get("#freed:IN") and not env.get("#new"), n, "an unclipped winding is handed back and nothing else is held")
        else:
            self.ob("clip-result", "value", False, n, "the result is the winding, its clipped copy or nothing")

    def branch(self, e, pol, env, I, truth=False):
        if truth:
            p = I.path(e, env)
            c = self.code_of(p)
            if c and 0 in self.byc:
                s1 = "".join(ch for ch in env.get("#" + c, "BFO") if (ch == self.byc[0]) != pol)
                if not s1:
                    return False
                env["#" + c] = s1
            if p is not None and self.cnt and p.startswith(self.cnt + "["):
                self.count(p, pol, env)
            return True
        s = self.sided(e, env, I)
        if s:
            (_, pl, pt), op, (sg, nm) = s
            if pl == ("PATH", "PLANE"):
                r = rel_pol(op, pol)
                if pt == "IN.origin" and nm == "IN.radius":
                    if r == "<" and sg < 0:
                        env["#out"] = 1
                elif pt is not None and pt.startswith("IN["):
                    env["#pt"] = pt
                    if op in (">",) and sg >= 0:
                        env["#gt"] = int(pol)
                    elif op in ("<",) and sg <= 0:
                        env["#lt"] = int(pol)
                    elif op == "<=" and sg >= 0:
                        env["#gt"] = int(not pol)
                    elif op == ">=" and sg <= 0:
                        env["#lt"] = int(not pol)
            return True
        op, a, b = compare(e)
        for x, y, o in ((a, b, op), (b, a, absint.SWAP[op])):
            px, py, vy = I.path(x, env), I.path(y, env), I.eval(y, env)
            eq = (o == "==") == pol if o in ("==", "!=") else None
            c = self.code_of(px)
            if c and eq is not None and vy is not None and vy[0] == "E" and vy[1] in self.byc:
                s0 = env.get("#" + c, "BFO")
                w = self.byc[vy[1]]
                s1 = "".join(ch for ch in s0 if (ch == w) == eq)
                if not s1:
                    return False
                env["#" + c] = s1
            if c == "next" and self.code_of(py) == "cur" and eq is not None:
                env["#same"] = int(eq)
            if px is not None and self.cnt and px.startswith(self.cnt + "[") and py == "IN.size()" and eq is not None:
                if px == "%s[%d]" % (self.cnt, self.code["ON"]):
                    env["#allon"] = int(eq)
            if px is not None and self.cnt and px.startswith(self.cnt + "[") and vy == ("E", 0):
                if o in (">", "!="):
                    self.count(px, pol, env)
                elif o in ("==", "<="):
                    self.count(px, not pol, env)
            if px is not None and px.endswith(".size()") and px[:-7] in {"v:%s" % i for i in self.new}:
                if o in ("==", ">=") and not pol or o in ("<", "!=") and pol:
                    env["#room"] = 1
            if px is not None and px.startswith("PLANE.normal[") and vy is not None and vy[0] == "E" and eq:
                env["#axis"] = vy[1]
        return True

    def count(self, p, nonzero, env):
        if p == "%s[%d]" % (self.cnt, self.code["FRONT"]) and not nonzero:
            env["#nofront"] = 1

    def enter(self, n, env, I):
        if n.i == self.head:
            if env.get("#in"):
                cur, nx, same = env.get("#cur", "BFO"), env.get("#next", "BFO"), env.get("#same")
                if env.get("#p1"):
                    self.ob("clip-points", "keep", "B" not in cur, n, "points in front of or on the plane are kept, points behind it are not")
                else:
                    self.ob("clip-points", "drop", cur == "B", n, "points in front of or on the plane are kept (dropped here: %s)" % cur)
                if env.get("#mid"):
                    self.ob("clip-points", "cross", "O" not in cur and "O" not in nx and same == 0, n, "a crossing point is added exactly where the edge changes sides")
                else:
                    self.ob("clip-points", "no-cross", cur == "O" or nx == "O" or same == 1 or cur == nx and len(cur) == 1, n, "a crossing point is added wherever the edge changes sides")
            for k in ("#in", "#cur", "#next", "#same", "#p1", "#mid", "#room", "#axis"):
                env.pop(k, None)
            env["#done"] = 1
        elif n.i in self.start:
            env["#in"] = 1
            env.pop("#done", None)
        elif n.i not in self.body and env.get("#in"):
            env.pop("#in")
        if n.kind == "loop" and n.i != self.head:
            env.pop("#axis", None)
        return None


def check_clip(ck, P):
    f = P.fn("ClipStackWinding")
    B = cfg.Builder(P, inline=lambda fn, c, d: inl(fn, c, d) and fn.get("cls") != "viswinding_t", max_depth=3).build(f)
    ids = ["0.%s" % p["id"] for p in f["params"]]
    roots = dict(zip(ids[1:4], ("IN", "K", "PLANE")))
    sides = {}
    for en, d in P.enums.items():
        e = d["e"]
        items = e.items() if isinstance(e, dict) else [(x["n"], x["v"]) for x in e]
        for k, v in items:
            if k.split("::")[-1] in ("SIDE_FRONT", "SIDE_BACK", "SIDE_ON"):
                sides[k.split("::")[-1][5:]] = v
    if len(sides) != 3:
        raise AnalysisBroken("side codes not found: %s" % sides)
    S = Clip(B, "ClipStackWinding", roots, sides)
    I = absint.Interp(B, S)
    S.ck = ck; S.publish()
    r = S.bound
    ck.ob("clip-points", "ClipStackWinding:all-edges", start_of(B, S.head, r[0]) == 0 and I.path(r[1], {}) == "IN.size()", B.nodes[S.head].where(), "every edge of the winding is handled")
    # the crossing point
    D = S.D

    def leaf(e):
        x = deep(e)
        if x.get("k") == "Ref" and x.get("id") in D and D[x["id"]] is not None:
            return D[x["id"]]
        p = I.path(x, {})
        if p is not None and (x.get("k") in ("Index", "Ref", "Member") or x.get("k") == "Call" and x.get("op") == "[]"):
            return poly.atom(p)
        return None
    darr = set()
    n0 = 0
    for n in B.nodes:
        e = n.ast
        if n.kind != "ev" or e is None or n.i not in S.body or e.get("k") != "Bin" or e["op"] != "=":
            continue
        a = deep(e["a"])
        if a.get("k") != "Call" or a.get("op") != "[]" or "double" not in a.get("t", ""):
            continue
        b0 = deep(operands(a)[0])
        j = I.path(operands(a)[1], {})
        if b0.get("k") != "Ref" or j is None:
            continue
        env = [dict(s) for s in I.F.states(n)]
        axis = {x.get("#axis") for x in env}
        r = poly.build(e["b"], lambda x: leaf2(x, I, env, leaf))
        n0 += 1
        if axis <= {1, -1} and len(axis) == 1:
            ax = axis.pop()
            want = poly.atom("PLANE.dist") if ax == 1 else poly.atom("PLANE.dist").neg()
            ck.ob("clip-points", "ClipStackWinding:axis%d" % ax, r is not None and r.same(want), n.where(), "on an axial plane the coordinate is that of the plane")
        elif axis == {None}:
            c = S.ctr
            ok = False
            if r is not None:
                ds = {x.split("[")[0] for x in r.atoms() if x.startswith("v:")}
                for d in ds:
                    p1, p2 = poly.atom("IN[%s][%s]" % (c, j)), poly.atom("IN[%s+1][%s]" % (c, j))
                    d1, d2 = poly.atom("%s[%s]" % (d, c)), poly.atom("%s[%s+1]" % (d, c))
                    ok = ok or r.same(p1 + d1 / (d1 - d2) * (p2 - p1))
            ck.ob("clip-points", "ClipStackWinding:crossing", ok, n.where(), "the crossing point divides the edge in the ratio of the distances of its ends (found %s)" % r)
    if not n0:
        raise AnalysisBroken("crossing point not recognised")


def leaf2(e, I, envs, leaf):
    x = deep(e)
    if x.get("k") in ("Ref", "Index", "Member") or x.get("k") == "Call" and (x.get("op") == "[]" or short(x) == "at"):
        r = leaf(x)
        if isinstance(r, dict):
            return r
        ps = {I.path(x, v) for v in envs}
        if len(ps) == 1:
            p = ps.pop()
            return poly.atom(p) if p else None
    return None


# ---------------------------------------------------------------- BasePortalThread
class Base(Geo):
    def __init__(self, B, name, param):
        super().__init__(name, {})
        self.B, self.param = B, param
        self.D = flow.defs(B)
        sets = []
        for n in B.nodes:
            e = n.ast
            if n.kind == "ev" and e is not None and e.get("k") == "Call" and e.get("op") == "=" and len(operands(e)) == 2 and bit(operands(e)[0]) is not None:
                sets.append(n)
        self.sets = sets
        hs = {loops.loops_of(B, n.i)[-1] for n in sets if loops.loops_of(B, n.i)}
        if len(hs) != 1:
            raise AnalysisBroken("portal loop of %s not recognised" % name)
        self.main = hs.pop()
        self.body = loops.body(B, self.main)
        r = bound_of(B, self.main)
        if isinstance(r, str):
            raise AnalysisBroken("portal loop of %s: %s" % (name, r))
        self.r = r
        self.ctr = "v:%s" % r[0]
        self.start = {s for s, l in r[2].succ if s in self.body}
        self.scans = {}

    def nm(self, p):
        if p is None:
            return None
        import re
        p = re.sub(r"^v:[^\[\].]*\[%s\]" % re.escape("v:0.%s" % self.param), "P", p)
        return re.sub(r"^v:[^\[\].]*\[%s\]" % re.escape(self.ctr), "Q", p)

    def value(self, e, env, I):
        if e.get("k") == "Call" and short(e) == "distance_to" and len(operands(e)) == 2:
            pl, pt = operands(e)
            return ("DIST", self.nm(I.path(pl, env)), self.nm(I.path(pt, env)))
        return None

    def tol(self, e, env, I):
        r = super().tol(e, env, I)
        return r and (r[0], self.nm(r[1]))

    def which(self, d):
        """'F': point of the other portal against this plane; 'B': point of this portal against the other plane"""
        if d[1] == "P.plane" and d[2] and d[2].startswith("Q.winding["):
            return "F"
        if d[1] == "Q.plane" and d[2] and d[2].startswith("P.winding["):
            return "B"
        return None

    def event(self, n, env, I):
        e = n.ast
        if n in self.sets:
            b = bit(operands(e)[0])
            ok = I.eval(operands(e)[1], env) == ("E", 1) and I.path(b[1], env) == self.ctr
            self.ob("base-portal", "mark", ok, n, "a portal that is not rejected is recorded as possibly visible")
            if ok:
                env["#set"] = 1
            return True
        if e.get("k") == "Bin" and e["op"] == "+=":
            s = self.sided(e["b"], env, I) if compare(deep(e["b"])) else None
            if s:
                d, op, (sg, nmn) = s
                w = self.which(d)
                p = I.lpath(e["a"], env)
                if w == "F" and op in (">", ">=") and sg < 0 or w == "B" and op in ("<", "<=") and sg > 0:
                    env["#acc:%s" % p] = w
                env.pop(p, None)
                return True
        return False

    def branch(self, e, pol, env, I, truth=False):
        if truth:
            return True
        s = self.sided(e, env, I)
        if s:
            d, op, (sg, nmn) = s
            r = rel_pol(op, pol)
            if d[1] == "P.plane" and d[2] == "Q.winding.origin" and nmn == "Q.winding.radius" and r == "<" and sg < 0:
                env["#why"] = "entirely behind"
            if d[1] == "Q.plane" and d[2] == "P.winding.origin" and nmn == "P.winding.radius" and r == ">" and sg > 0:
                env["#why"] = "entirely in front"
            w = self.which(d)
            if w == "F" and r == ">" or w == "B" and r == "<":
                env["#hit" + w] = 1
            if w == "F" and r == "<" and sg < 0 or w == "B" and r == ">" and sg > 0:
                env["#notall" + w] = 1
            if w and (w == "F" and op in (">", "<=") and sg >= 0 or w == "B" and op in ("<", ">=") and sg <= 0):
                hs = [h for h in loops.loops_of(self.B, self.cur.i) if h in self.body and h != self.main]
                if hs:
                    self.scans.setdefault(hs[0], {})[w] = self.cur
            return True
        c = compare(e)
        op, a, b = c
        for x, y, o in ((a, b, op), (b, a, absint.SWAP[op])):
            px, py = I.path(x, env), I.path(y, env)
            eq = (o == "==") == pol if o in ("==", "!=") else None
            if px == self.ctr and py == "v:0.%s" % self.param and eq:
                env["#why"] = "the portal itself"
            if px is not None and env.get("#acc:%s" % px) and py is not None and self.nm(py).endswith(".size()"):
                if eq is False or o == "<" and pol:
                    w = env["#acc:%s" % px]
                    if self.nm(py) == ("Q.winding.size()" if w == "F" else "P.winding.size()"):
                        env["#notall" + w] = 1
            cx = deep(x)
            if cx.get("k") == "Call" and short(cx) == "dot" and len(cx["args"]) == 2:
                ps = {self.nm(I.path(z, env)) for z in cx["args"]}
                f = deep(y)
                neg = f.get("k") == "Un" and f["op"] == "-" and deep(f["e"]).get("k") == "Float" and deep(f["e"])["v"] >= 0.9
                if ps == {"P.plane.normal", "Q.plane.normal"} and neg and rel_pol(o, pol) in ("<", "<="):
                    if env.get("#scanF") and not env.get("#hitF") or env.get("#scanB") and not env.get("#hitB"):
                        env["#why"] = "coplanar, facing the other way"
            if cx.get("k") == "Call" and short(cx) == "distFromPortal" and rel_pol(o, pol) in (">",) and env.get("#vd"):
                if py is not None and "visdist" in py and {self.nm(I.path(z, env)) for z in operands(cx)} in ({"P", "Q.winding"}, {"Q", "P.winding"}):
                    env["#why"] = "farther than the distance limit"
            if px is not None and "visdist" in px and I.eval(y, env) == ("E", 0) and rel_pol(o, pol) == ">":
                env["#vd"] = 1
        return True

    def enter(self, n, env, I):
        self.cur = n
        if n.i == self.main:
            if env.get("#in"):
                why = env.get("#why")
                if not why and env.get("#scanF") and not env.get("#hitF") and env.get("#notallF"):
                    why = "no point in front"
                if not why and env.get("#scanB") and not env.get("#hitB") and env.get("#notallB"):
                    why = "no point behind"
                self.ob("base-portal", "reject", bool(env.get("#set") or why), n, "a portal is rejected only for a geometric reason: the portal itself, wholly on the wrong side, coplanar and opposite, or too far away")
            for k in list(env):
                if k.startswith("#"):
                    env.pop(k)
        elif n.i in self.start:
            env["#in"] = 1
        if n.i in self.scanheads:
            env["#scan" + self.scanheads[n.i]] = 1
        for h, (w, entry, body) in self.scanbody.items():
            if n.i == entry:
                env["#it" + w] = 1
            elif n.i not in body and env.get("#scan" + w) and not env.get("#it" + w):
                return False  # a winding has points
        return None


def check_base(ck, P):
    f = P.fn("BasePortalThread")
    B = cfg.Builder(P, inline=lambda fn, c, d: inl(fn, c, d) and fn.get("cls") not in ("viswinding_t", "leafbits_t") and short(fn) != "distFromPortal", max_depth=3).build(f)
    S = Base(B, "BasePortalThread", f["params"][0]["id"])
    S.scanheads = {}
    S.scanbody = {}
    absint.Interp(B, S)
    S.scanheads = {h: next(iter(w)) for h, w in S.scans.items() if len(w) == 1}
    for h, w in S.scanheads.items():
        r = bound_of(B, h)
        bd = loops.body(B, h)
        if not isinstance(r, str):
            S.scanbody[h] = (w, [s for s, l in r[2].succ if s in bd][0], bd | {h, r[2].i})
    S.obs = {}
    I = absint.Interp(B, S)
    for h, ws in S.scans.items():
        for w, n in ws.items():
            r = bound_of(B, h)
            want = {"F": "Q.winding.size()", "B": "P.winding.size()"}[w]
            ok = not isinstance(r, str) and start_of(B, h, r[0]) == 0
            if ok:
                ps = {S.nm(I.path(r[1], dict(s))) for s in I.F.states(r[2])}
                ok = ps == {want}
            if ok:
                entry = [s for s, l in r[2].succ if s in loops.body(B, h)][0]
                ok = loops.every_iteration(B, h, entry, n.i)[0]
            ck.ob("base-portal", "BasePortalThread:scan-%s" % w, ok, n.where(), "every point of the winding is compared before it is called wholly on one side")
    S.ck = ck; S.publish()
    b = deep(S.r[1])
    okb = start_of(B, S.main, S.r[0]) == 0 and any(x.get("k") == "Ref" and x["n"].split("::")[-1] in ("numportals", "portals") for x in walk(b)) and (
        b.get("k") == "Call" or b.get("k") == "Bin" and b["op"] == "*" and 2 in (cfg.cval(b["a"]), cfg.cval(b["b"])))
    ck.ob("base-portal", "BasePortalThread:all", okb, B.nodes[S.main].where(), "every portal, in both directions, is considered")
    # the flood
    calls = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and short(n.ast) == "SimpleFlood"]
    for n in calls:
        for s in I.F.states(n):
            env = dict(s)
            ps = [S.nm(I.path(a, env)) for a in n.ast["args"]]
            ck.ob("base-portal", "BasePortalThread:flood", ps[:2] == ["P", "P.leaf"], n.where(), "the flood starts in the leaf the portal leads into")
    if not calls:
        raise AnalysisBroken("SimpleFlood is not called")
    f = P.fn("SimpleFlood")
    B = cfg.Builder(P, inline=lambda fn, c, d: inl(fn, c, d) and fn.get("cls") != "leafbits_t", max_depth=2).build(f)
    ids = ["0.%s" % p["id"] for p in f["params"]]
    S = Flood(B, "SimpleFlood", dict(zip(ids, ("SRC", "LEAF", "SEE"))))
    absint.Interp(B, S)
    S.obs = {}
    I = absint.Interp(B, S)
    for s in I.F.states(B.exit):
        S.ob("base-flood", "mark", dict(s).get("#marked") == 1, B.entry, "a leaf that is reached is recorded as possibly visible")
    S.ck = ck; S.publish()


class Flood(Geo):
    def portalno(self, e, env, I):
        """e is the number of the portal whose leaf the flood would go on to"""
        v = deep(e)
        for _ in range(4):
            if v.get("k") == "Ref" and self.D.get(v.get("id")) is not None:
                v = deep(self.D[v["id"]])
        if v.get("k") != "Bin" or v["op"] != "-" or not any(x.get("n", "").split("::")[-1] == "portals" for x in walk(v["b"]) if x.get("k") == "Ref"):
            return False
        p = I.path(v["a"], env)
        return p is not None and p in self.next

    def __init__(self, B, name, roots):
        super().__init__(name, roots)
        self.B = B
        ev = [n for n in B.nodes if n.kind == "ev" and n.ast is not None]
        self.rec = [n for n in ev if n.ast.get("k") == "Call" and short(n.ast) == "SimpleFlood"]
        hs = {loops.loops_of(B, n.i)[0] for n in self.rec if loops.loops_of(B, n.i)}
        if len(hs) != 1:
            raise AnalysisBroken("loop of SimpleFlood not recognised")
        self.D = flow.defs(B)
        self.next = set()
        self.head = hs.pop()
        self.body = loops.body(B, self.head)

    def event(self, n, env, I):
        e = n.ast
        if e.get("k") == "Call" and e.get("op") == "=" and len(operands(e)) == 2:
            b = bit(operands(e)[0])
            if b is not None and I.path(b[0], env) == "SRC.mightsee":
                if I.path(b[1], env) == "LEAF" and I.eval(operands(e)[1], env) == ("E", 1):
                    env["#marked"] = 1
                else:
                    self.ob("base-flood", "mark-which", False, n, "the leaf that is reached is the one recorded")
                return True
        if n in self.rec:
            a = e["args"]
            p = I.path(a[1], env)
            if p is not None and p.endswith(".leaf"):
                self.next.add(p[:-5])
            self.ob("base-flood", "recurse", I.path(a[0], env) == "SRC" and p is not None and p.endswith(".leaf") and I.path(a[2], env) == "SEE", n, "the flood goes on through the portal with the same source")
            env["#rec"] = 1
            return True
        return False

    def branch(self, e, pol, env, I, truth=False):
        if truth:
            b = bit(e)
            if b is not None:
                q = I.path(b[0], env)
                if q == "SRC.mightsee" and I.path(b[1], env) == "LEAF" and pol:
                    env["#marked"] = 1
                if q == "SEE" and not pol and self.portalno(b[1], env, I):
                    env["#why"] = 1

        return True

    def enter(self, n, env, I):
        if n.i == self.head:
            if env.get("#in"):
                self.ob("base-flood", "skip", bool(env.get("#rec") or env.get("#why")), n, "the flood passes every portal that is possibly visible")
            for k in ("#in", "#rec", "#why"):
                env.pop(k, None)
        elif n.i in self.body:
            env["#in"] = 1
        else:
            if env.get("#in"):
                self.ob("base-flood", "all", False, n, "the flood considers every portal of the leaf")
        return None


class Start(Geo):
    def value(self, e, env, I):
        k = e.get("k")
        if k in ("Member", "Call", "Ref", "Un"):
            p = I.path(e, env)
            if p == "P":
                return ("PTR", p)
            if p is not None and p.startswith("P.") and p not in env:
                return ("PTR", p) if "*" in e.get("t", "") or k == "Un" or short(e) == "get" else ("VAL", p)
        return None


    def event(self, n, env, I):
        e = n.ast
        if e.get("k") == "Call" and short(e) == "resize" and len(operands(e)) == 2:
            p = I.path(operands(e)[0], env)
            x = deep(operands(e)[1])
            if p is not None and (p.endswith(".leafvis") or p == "P.visbits"):
                env["#fresh"] = int(x.get("k") == "Ref" and x["n"].split("::")[-1] == "portalleafs")
        return False


def check_start(ck, P):
    f = P.fn("PortalFlow")
    B = cfg.Builder(P, inline=lambda fn, c, d: inl(fn, c, d) and fn.get("cls") != "leafbits_t", max_depth=3).build(f)
    S = Start("PortalFlow", {"0.%s" % f["params"][0]["id"]: "P"})
    S.B = B
    I = absint.Interp(B, S)
    ev = [n for n in B.nodes if n.kind == "ev" and n.ast is not None]
    calls = [n for n in ev if n.ast.get("k") == "Call" and short(n.ast) == "RecursiveLeafFlow"]
    if not calls:
        raise AnalysisBroken("PortalFlow does not start the flow")
    for n in calls:
        a = n.ast["args"]
        data = next((x for x in a if "threaddata_t" in x.get("t", "")), None)
        fr = next((x for x in a if pst(x.get("t", ""))), None)
        for s in I.F.states(n):
            env = dict(s)
            d, h = I.path(data, env), I.path(fr, env)
            S.ob("start", "frame", h is not None and h == "%s.pstack_head" % d, n, "the flow starts with the head of the path")
            S.ob("start", "leaf", I.path(a[0], env) == "P.leaf", n, "the flow starts in the leaf behind the portal")
            S.ob("start", "source", env.get("%s.source" % h) == ("PTR", "P.winding"), n, "the source winding is the portal (%s)" % (env.get("%s.source" % h),))
            S.ob("start", "plane", env.get("%s.portalplane" % h) == ("VAL", "P.plane"), n, "the source plane is that of the portal (%s)" % (env.get("%s.portalplane" % h),))
            S.ob("start", "limit", env.get("%s.mightsee" % h) == ("PTR", "P.mightsee"), n, "the first limit is what the portal might see (%s)" % (env.get("%s.mightsee" % h),))
            S.ob("start", "no-pass", env.get("%s.pass" % h, ("NULL",)) == ("NULL",), n, "there is no pass portal at the start")
            S.ob("start", "base", env.get("%s.base" % d) == ("PTR", "P"), n, "counts are those of the portal")
            S.ob("start", "result", I.path({"k": "Member", "f": "leafvis", "base": data, "t": "leafbits_t"}, env) in ("P.visbits",) or result_is(B, data, I), n, "what is seen is recorded in the portal's own set")
            S.ob("start", "cleared", env.get("#fresh") == 1, n, "the set starts empty, with room for every leaf")
    S.ck = ck; S.publish()



# ---------------------------------------------------------------- bounds over all points, bit sets
class Fold(absint.Sem):
    """an accumulator that must bound a measure of every point"""

    def __init__(self, B, kind):
        self.B, self.kind = B, kind
        self.obs = {}
        self.D = flow.defs(B)
        self.heads = {}

    ob = Vis.ob

    def measure(self, e, env, I):
        """index path of the point e measures, or None"""
        e = deep(e)
        for _ in range(4):
            if e.get("k") == "Ref" and self.D.get(e.get("id")) is not None:
                e = deep(self.D[e["id"]])
        if self.kind == "max":
            if e.get("k") == "Call" and short(e) in ("length", "distance"):
                a = [self.res(x) for x in operands(e)]
                if len(a) == 1 and a[0].get("k") == "Call" and a[0].get("op") == "-":
                    a = operands(a[0])
                if len(a) == 2:
                    ps = [I.path(x, env) for x in a]
                    if "this.origin" in ps:
                        return self.point(ps[1 - ps.index("this.origin")])
        elif e.get("k") == "Call" and short(e) in ("fabs", "abs") and len(operands(e)) == 1:
            x = self.res(operands(e)[0])
            if x.get("k") == "Call" and short(x) == "distance_to" and (I.path(operands(x)[0], env) or "").endswith(".plane"):
                return self.point(I.path(operands(x)[1], env))
        return None

    def res(self, e):
        e = deep(e)
        for _ in range(4):
            if e.get("k") == "Ref" and self.D.get(e.get("id")) is not None:
                e = deep(self.D[e["id"]])
        return e

    def point(self, p):
        if p is None or "[" not in p or not p.startswith("this"):
            return None
        return p[p.index("[") + 1:-1]

    def event(self, n, env, I):
        e = n.ast
        if e.get("k") == "Bin" and e["op"] == "=":
            p = I.lpath(e["a"], env)
            if p == self.acc:
                b = deep(e["b"])
                if b.get("k") == "Call" and short(b) == self.kind:
                    ps = [I.path(x, env) for x in b["args"]]
                    ms = [self.measure(x, env, I) for x in b["args"]]
                    if p in ps:
                        env["#ok"] = ms[1 - ps.index(p)]
                        env.pop("#bad", None) if env["#ok"] else env.update({"#bad": 1})
                        return True
                m = self.measure(b, env, I)
                if m and env.get("#better") == m:
                    env["#ok"] = m
                elif cfg.cval(b) == 0 or b.get("k") == "Float":
                    env["#init"] = 1
                else:
                    env["#bad"] = 1
                return True
        return False

    def branch(self, e, pol, env, I, truth=False):
        c = compare(e)
        if not truth and c:
            op, a, b = c
            for x, y, o in ((a, b, op), (b, a, absint.SWAP[op])):
                m = self.measure(x, env, I)
                if m and I.path(y, env) == self.acc:
                    r = rel_pol(o, pol)
                    if r in ((">", ">=") if self.kind == "max" else ("<", "<=")):
                        env["#better"] = m
                    else:
                        env["#ok"] = m
        return True

    def enter(self, n, env, I):
        for h, (ctr, br, bd) in self.heads.items():
            if n.i == h:
                if env.get("#in"):
                    self.ob("point-bound", "every-point", env.get("#ok") == ctr and not env.get("#bad"), n, "the bound takes in every point")
                for k in ("#in", "#ok", "#better"):
                    env.pop(k, None)
            elif any(s == n.i and s in bd for s, l in br.succ):
                env["#in"] = 1
            elif n.i not in bd and env.get("#in"):
                self.ob("point-bound", "left", False, n, "the bound takes in every point: the loop is left early")
                env.pop("#in")
        return None


def check_fold(ck, P, name, kind):
    fs = [f for f in P.fns.values() if short(f) == name and f.get("cls") == "viswinding_t"]
    if len(fs) != 1:
        raise AnalysisBroken("%s not found" % name)
    f = fs[0]
    B = cfg.Builder(P, inline=lambda fn, c, d: inl(fn, c, d) and short(fn) not in ("at", "size", "operator[]"), max_depth=2).build(f)
    S = Fold(B, kind)
    S.acc = "this.radius" if kind == "max" else None
    hit = set()
    for n in B.nodes:
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Bin" and e["op"] == "=":
            a = deep(e["a"])
            hs = loops.loops_of(B, n.i)
            if hs and (kind == "max" and a.get("k") == "Member" and a["f"] == "radius" or kind == "min" and a.get("k") == "Ref" and "double" in a["t"] + "double" * ("float" in a["t"])):
                hit.add(hs[0])
                if kind == "min":
                    S.acc = "v:%s" % a["id"]
    ok = len(hit) == 1
    I = None
    for h in hit:
        r = bound_of(B, h)
        if isinstance(r, str):
            ok = False
            continue
        st = start_of(B, h, r[0])
        ck.ob("point-bound", "%s:first" % name, st == 0, B.nodes[h].where(), "the bound takes in every point of the winding")
        S.heads[h] = ("v:%s" % r[0], r[2], loops.body(B, h))
    if not ok:
        raise AnalysisBroken("%s: the loop over the points was not recognised" % name)
    I = absint.Interp(B, S)
    for h in hit:
        r = bound_of(B, h)
        ps = {I.path(r[1], dict(s)) for s in I.F.states(r[2])}
        ck.ob("point-bound", "%s:all" % name, ps <= {"this.numpoints", "this.size()"}, B.nodes[h].where(), "the bound takes in every point of the winding")
    for s in I.F.states(B.exit):
        S.ob("point-bound", "final", not dict(s).get("#bad"), B.entry, "nothing else replaces the bound")
    for (g, key, i), (o, n, text) in sorted(S.obs.items(), key=lambda x: x[0]):
        ck.ob(g, "%s:%s" % (name, key), o, n.where(), text)


def check_bits(ck, P):
    """bit i lives in block i / 32 at position i % 32, in every accessor"""
    def isidx(e, f):
        e = deep(e)
        return e.get("k") == "Ref" and e.get("id") == f["params"][0]["id"]

    def block(e, f):
        e = deep(e)
        return e.get("k") == "Bin" and (e["op"] == ">>" and cfg.cval(e["b"]) == 5 or e["op"] == "/" and cfg.cval(e["b"]) == 32) and isidx(e["a"], f)

    def pos(e, f):
        e = deep(e)
        if e.get("k") == "Call" and short(e) == "nth_bit":
            e = deep(e["args"][0])
        elif e.get("k") == "Bin" and e["op"] == "<<" and cfg.cval(e["a"]) == 1:
            e = deep(e["b"])
        else:
            return False
        return e.get("k") == "Bin" and (e["op"] == "&" and cfg.cval(e["b"]) == 31 or e["op"] == "%" and cfg.cval(e["b"]) == 32) and isidx(e["a"], f)
    n = 0
    for f in P.fns.values():
        if f.get("cls") == "leafbits_t" and short(f) == "operator[]":
            n += 1
            nodes = list(model.fn_nodes(f))
            sh = [x for x in nodes if x.get("k") == "Bin" and x["op"] in (">>", "/") and isidx(x["a"], f)]
            ps = [x for x in nodes if x.get("k") == "Call" and short(x) == "nth_bit" or x.get("k") == "Bin" and x["op"] == "<<"]
            ck.ob("bit-set", "leafbits_t[]:%s" % ("const" if "reference" not in str(f.get("ret", f.get("t", ""))) and any(x.get("k") == "Un" or x.get("k") == "Bin" and x["op"] == "&" and deep(x["b"]).get("k") == "Call" for x in nodes) else "ref"),
                  bool(sh) and bool(ps) and all(block(x, f) for x in sh) and all(pos(x, f) for x in ps), "%s:%s" % (f["f"], f.get("l", "?")),
                  "bit i is bit i mod 32 of block i / 32")
        if f.get("cls") == "leafbits_t" and short(f) == "block_size":
            n += 1
            r = [x for x in model.fn_nodes(f) if x.get("k") == "Return"]
            ok = len(r) == 1 and blocks_of(r[0]["e"])
            ck.ob("bit-set", "leafbits_t:blocks", ok, "%s:%s" % (f["f"], f.get("l", "?")), "there is a block for every bit")
        if f.get("cls") == "leafbits_t::reference" and short(f) == "operator=" and len(f["params"]) == 1 and f["params"][0]["t"] == "bool":
            n += 1
            B = cfg.Builder(P, inline=lambda fn, c, d: False, max_depth=1).build(f)
            want = {}
            for s in flow.Flow(B, "", lambda nd, st, lab: lab if nd.kind == "br" and st == "" else st).at.items():
                e = B.nodes[s[0]].ast
                if B.nodes[s[0]].kind == "ev" and e is not None and e.get("k") == "Bin" and e["op"] in ("|=", "&=", "="):
                    for st in s[1]:
                        v = deep(e["b"])
                        neg = v.get("k") == "Un" and v["op"] == "~"
                        m = deep(v["e"]) if neg else v
                        okm = m.get("k") == "Member" and m["f"] == "mask"
                        want[st] = (e["op"], neg) if okm else None
            ck.ob("bit-set", "reference=", want.get(True) == ("|=", False) and want.get(False) == ("&=", True), "%s:%s" % (f["f"], f.get("l", "?")), "setting sets and clearing clears exactly the bit")
    if n < 3:
        raise AnalysisBroken("bit set accessors not found")


def blocks_of(e):
    e = deep(e)
    if e.get("k") == "Bin" and (e["op"] == ">>" and cfg.cval(e["b"]) == 5 or e["op"] == "/" and cfg.cval(e["b"]) == 32):
        a = deep(e["a"])
        return a.get("k") == "Bin" and a["op"] == "+" and max(cfg.cval(a["a"]) or 0, cfg.cval(a["b"]) or 0) >= 31
    return False

