"""C09: portal files are validated before they are used."""
import bounds, cfg, flow, loops, model
from facts import Engine, Lin
from flow import key, short, operands
from model import strip, walk

RULE = ("The graph of the portal-file reader is split by the state of its input (tested good / values read but untested / found failed) and analysed with linear inequalities: "
        "on no feasible path is a value used, or the file accepted, while reads are untested or failed; every leaf and cluster number accepted lies in the range announced by "
        "the header; every subscript formed from the file, in the reader and when vis installs the portals, lies inside its array.")

GOOD = {"operator!": False, "fail": False, "good": True, "operator bool": True}


def readers(P):
    out = [f for f in P.fns.values() if f.get("body") and f["n"] == "LoadPrtFile"]
    if not out:
        raise model.AnalysisBroken("no portal file reader")
    return out


class Input:
    """state: (ok | unchecked | failed, values read since the last successful test)"""

    def __init__(self, B, ik):
        self.B, self.ik = B, ik
        self.defs = flow.defs(B)
        self.targets = set()
        for n in B.nodes:
            for t in self.read_targets(n):
                self.targets.add(t)
        self.uses = []

    def isread(self, e):
        if e is None or e.get("k") != "Call":
            return False
        o = operands(e)
        return bool(o) and self.chain(o[0]) and (e.get("op") == ">>" or short(e) in ("get", "read", "getline", "ignore", "peek"))

    def chain(self, e):
        e = strip(e)
        while e is not None and e.get("k") == "Call" and (e.get("op") == ">>" or short(e) in ("read", "get", "getline", "ignore")) and operands(e):
            e = strip(operands(e)[0])
        return e is not None and key(e) == self.ik

    def read_targets(self, n):
        e = n.ast
        if n.kind != "ev" or e is None or not self.isread(e):
            return
        for a in operands(e)[1:]:
            k = key(a) or model.path(strip(a))
            if k and "basic_string" not in a.get("t", ""):
                yield k

    def polarity(self, e, d=0):
        e = strip(e)
        if e is None or d > 6:
            return None
        if e.get("k") == "Call" and operands(e) and self.chain(operands(e)[0]) and short(e) in GOOD:
            return GOOD[short(e)]
        if e.get("k") == "Un" and e["op"] == "!":
            p = self.polarity(e["e"], d + 1)
            return None if p is None else not p
        if e.get("k") == "Ref" and e.get("id") in self.defs and self.defs[e["id"]] is not None:
            return self.polarity(self.defs[e["id"]], d + 1)
        return None

    def step(self, n, s, lab):
        e = n.ast
        st, pend = s
        if e is None:
            return s
        if n.kind == "br" and lab in (True, False):
            p = self.polarity(e)
            if p is not None:
                if p == lab:
                    return None if st == "failed" else ("ok", frozenset())
                return None if st == "ok" else ("failed", pend)
            return s
        if n.kind == "ev" and lab != "exc" and self.isread(e):
            return ("failed" if st == "failed" else "unchecked", pend | frozenset(self.read_targets(n)))
        return s

    def uses_of(self, n, pend=None):
        """values obtained from the stream that this node uses"""
        e = n.ast
        if e is None or n.kind not in ("ev", "br", "switch"):
            return []
        if n.kind == "ev" and (self.isread(e) or e.get("k") in ("Var", "ScopeEnd", "Ref", "Member", "Index") or e.get("k") == "Call" and (
                e.get("op") == "[]" or short(e) in ("operator[]", "at"))):
            if e.get("k") != "Var":
                return []
        if self.polarity(e) is not None:
            return []
        out = []
        inner = {id(y) for x in walk(e) if self.isread(x) for y in walk(x)}
        for x in walk(e):
            if id(x) in inner:
                continue
            if x.get("k") in ("Ref", "Member", "Index"):
                k = key(x) or model.path(x)
                if k in (self.targets if pend is None else pend) and k != self.ik:
                    out.append(model.path(x))
        return out


def rdvars(I):
    """variables that hold the result of a read"""
    if not hasattr(I, "_rv"):
        I._rv = {n.ast["id"] for n in I.B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and n.ast.get("init") is not None and any(I.isread(x) for x in walk(n.ast["init"]))}
        for n in I.B.nodes:
            e = n.ast
            if n.kind == "ev" and e is not None and e.get("k") == "Bin" and e["op"] == "=" and any(I.isread(x) for x in walk(e["b"])) and strip(e["a"]).get("k") == "Ref":
                I._rv.add(strip(e["a"])["id"])
    return I._rv


def reader(ck, P, f):
    inl = lambda fn, c, d: fn["f"].startswith("common/prtfile") or any("stream" in p.get("t", "") for p in fn["params"]) and fn["f"].startswith("common/")
    B = cfg.Builder(P, inline=inl, max_depth=4).build(f)
    ins = [n.ast["id"] for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and "ifstream" in n.ast.get("t", "") and not n.ast["t"].endswith("&")]
    if len(ins) != 1:
        raise model.AnalysisBroken("%s: %d input streams" % (f["n"], len(ins)))
    I = Input(B, ins[0])
    F = flow.Flow(B, ("unchecked", frozenset()), I.step)
    G = flow.Product(F, I.step)
    E = Engine(G, P).run()
    live = {i for i, st in E.inst.items() if not st.dead}
    ck.count("states_explored", F.visited)
    nuse = 0
    for n in G.nodes:
        if n.i not in live:
            continue
        s, pend = G.state[n.i]
        us = I.uses_of(n)
        bad = I.uses_of(n, pend)
        nuse += bool(us)
        if bad:
            us = bad
            ck.ob("tested-before-use", "%s:%s" % (f["n"], us[0]), False, n.where(), "%s is used although the read that produced it %s" % (
                us[0], "may have failed and was not tested" if s == "unchecked" else "failed"))
        elif us:
            ck.ob("tested-before-use", "%s:%s" % (f["n"], us[0]), True, n.where(), "used only after the input was tested")
        if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Return":
            ck.ob("accepted-when-good", f["n"], s == "ok", n.where(), "the portal file is accepted although its last read %s" % ("was not tested" if s == "unchecked" else "failed"))
    # a loop that reads must have a way out that a failed input takes: a test of the input, a counter, or a test for end-of-file
    nl = 0
    for h in B.nodes:
        if h.kind != "loop":
            continue
        body = loops.natural(B, h.i)
        if not any(I.isread(B.nodes[i].ast) for i in body if B.nodes[i].kind == "ev"):
            continue
        nl += 1
        ok = False
        for i in body | {h.i}:
            n = B.nodes[i]
            if n.kind == "loop" and n.i == h.i and n.ast is not None and n.ast.get("k") == "RFor":
                ok = True
            if n.kind != "br" or all(t in body or t == h.i for t, _ in n.succ):
                continue
            if I.polarity(n.ast) is not None:
                ok = True
            vals = [x for x in walk(n.ast) if x.get("k") in ("Ref", "Member") and x.get("dk") not in ("enum", "func") and key(x) not in I.targets and key(x) != I.ik and x.get("id") not in rdvars(I)]
            if vals or any(x.get("k") == "Int" and x.get("v") == -1 or x.get("k") == "Un" and x["op"] == "-" or x.get("cv") == -1 for x in walk(n.ast)):
                ok = True
        ck.ob("no-endless-read", "%s:loop@%s" % (f["n"], model.path(h.ast.get("c") or h.ast.get("cond") or {}) if h.ast else "?"), ok, h.where(), "this loop reads the file but nothing ends it when the input has failed")
    if not nl:
        raise model.AnalysisBroken("no reading loop in " + f["n"])
    if nuse < 5:
        raise model.AnalysisBroken("%s uses only %d values it reads" % (f["n"], nuse))


def ranges(ck, P, f):
    inl = lambda fn, c, d: fn["f"].startswith(("common/prtfile", "include/common/prtfile", "include/common/polylib", "include/common/qvec"))
    found = {"leafnums": 0, "cluster": 0}

    def ev(E, n, st):
        e = n.ast
        rt = [t for t in ()]
        for o in bounds.obligations(E, n, st):
            if n.fn["f"].startswith("common/prtfile"):
                ck.ob("subscript", "%s:%s" % (f["n"], o.text), o.ok, n.where(), "subscript must lie inside its array: %s" % o.need)
        res = [n2.ast["id"] for n2 in E.B.nodes if n2.kind == "ev" and n2.ast is not None and n2.ast.get("k") == "Var" and n2.ast.get("t") == "prtfile_t"]
        if not res:
            return
        lim = Lin({"v:%s.portalleafs" % res[0]: 1})
        if e.get("k") == "Call" and short(e) in ("push_back", "emplace_back") and operands(e) and "prtfile_portal_t" in operands(e)[0].get("t", ""):
            a = strip(e["args"][0]) if e.get("args") else None
            while a is not None and a.get("k") in ("Call", "Construct") and a.get("args"):
                a = strip(a["args"][0])
            k = key(a) if a is not None else None
            for i in (0, 1):
                L = Lin({"v:%s.leafnums[%d]" % (k, i): 1}) if k else None
                found["leafnums"] += 1
                ck.ob("leaf-range", "%s:leafnums[%d]" % (f["n"], i), L is not None and E.entails(st, L) and E.entails(st, (lim - L).shift(-1)), n.where(),
                      "the leafs an accepted portal joins must be provably in 0..leafs-1")
        if e.get("k") == "Bin" and e["op"] == "=":
            m = strip(e["a"])
            if m.get("k") == "Member" and m.get("cls") == "prtfile_dleafinfo_t":
                L = E.lin(e["b"], st)
                found["cluster"] += 1
                ck.ob("leaf-range", "%s:cluster" % f["n"], L is not None and E.entails(st, L) and E.entails(st, (lim - L).shift(-1)), n.where(),
                      "the cluster given to a leaf must be provably in 0..clusters-1 (%s)" % L)
    Engine(cfg.Builder(P, inline=inl, max_depth=4).build(f), P, on_event=ev).run()
    if not found["leafnums"] or not found["cluster"]:
        raise model.AnalysisBroken("portal records not recognised: %s" % found)


def installing(ck, P):
    f = P.fn("LoadPortals")

    def ev(E, n, st):
        e = n.ast
        if not n.fn["f"].startswith("vis/"):
            return
        prt = [n2.ast["id"] for n2 in E.B.nodes if n2.kind == "ev" and n2.ast is not None and n2.ast.get("k") == "Var" and "prtfile_t" in n2.ast.get("t", "")]
        if prt:
            lim = Lin({"v:%s.portalleafs" % prt[0]: 1})
            for x in walk(e):
                x = strip(x)
                if x is not None and x.get("k") == "Index" and strip(x["base"]).get("k") == "Member" and strip(x["base"]).get("f") == "leafnums" and strip(x["base"]).get("cls") == "prtfile_portal_t":
                    L = E.lin(x, st)
                    if L is not None:
                        E.add(st, L)
                        E.add(st, (lim - L).shift(-1))
        for o in bounds.obligations(E, n, st):
            ck.ob("subscript", "LoadPortals:%s" % o.text, o.ok, n.where(), "subscript must lie inside its array: %s" % o.need)
    inl = lambda fn, c, d: fn["f"].startswith("vis/") and not fn["n"].startswith("viswinding_t")
    Engine(cfg.Builder(P, inline=inl, max_depth=3).build(f), P, on_event=ev).run()


def run(ck):
    P = ck.load("common", "vis")
    for f in readers(P):
        reader(ck, P, f)
        ranges(ck, P, f)
    installing(ck, P)
    ck.assumptions.append("The range of the leaf numbers of stored portals is established where portals are stored (rule leaf-range) and assumed where vis installs them.")
    ck.floor("subscript", 4)
    ck.floor("leaf-range", 3)
