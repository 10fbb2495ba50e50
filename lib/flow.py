"""Typestate exploration: the product of an inlined control-flow graph and a finite automaton.
Every (node, state) pair is visited once, so the result covers all paths of the graph."""
import cfg, model
from model import strip, walk


class Flow:
    def __init__(self, B, init, step, limit=400000):
        """step(node, state, label) -> new state, list of states, or None (path infeasible).
        label: edge label (True/False for branches, 'exc' for exceptional edges, ('handler', type), ...)"""
        self.B = B
        self.par = {}
        self.at = {}
        init = init if isinstance(init, list) else [init]
        work = []
        for s in init:
            work.append((B.entry.i, s))
            self.par[(B.entry.i, s)] = None
        n = 0
        while work:
            i, s = work.pop()
            n += 1
            if n > limit:
                raise model.AnalysisBroken("typestate exploration of %s too large" % B.fn["n"])
            self.at.setdefault(i, set()).add(s)
            nd = B.nodes[i]
            outs = list(nd.succ)
            if nd.exc is not None:
                outs.append((nd.exc, "exc"))
            for t, lab in outs:
                r = step(nd, s, lab)
                if r is None:
                    continue
                for s2 in (r if isinstance(r, list) else [r]):
                    k = (t, s2)
                    if k not in self.par:
                        self.par[k] = (i, s)
                        work.append(k)
        self.visited = n

    def states(self, node):
        return self.at.get(node.i, set())

    def trace(self, node, state, most=8):
        """Source locations of a path reaching (node, state)."""
        out = []
        k = (node.i, state)
        while k is not None:
            n = self.B.nodes[k[0]]
            if n.kind in ("br", "switch") or n.ast is not None and n.ast.get("k") in ("Call",):
                l = n.loc()
                if not out or out[-1] != l:
                    out.append(l)
            k = self.par.get(k)
        out = out[:most]
        return " <- ".join(out)


def key(e):
    """Identity of an lvalue path (resolved ids), or None."""
    e = strip(e)
    if e is None:
        return None
    k = e.get("k")
    if k == "Ref":
        return str(e.get("id") or e.get("gk") or e.get("key") or e.get("n"))
    if k == "This":
        return "this"
    if k == "Member":
        if e.get("anon"):
            return key(e["base"])
        b = e.get("base")
        bk = "this" if b is None else key(b)
        return None if bk is None else bk + "." + e["f"]
    if k == "Un" and e["op"] in ("*", "&"):
        return key(e["e"])
    if k == "Call" and e.get("op") in ("*", "->") and len(e.get("args", ())) == 1:
        return key(e["args"][0])
    if k == "Call" and e.get("n", "").split("::")[-1] in ("move", "forward", "as_const", "ref", "get", "value") and (e.get("args") or e.get("obj")):
        return key(e["args"][0] if e.get("args") else e["obj"])
    return None


def short(e):
    return e.get("n", "").split("::")[-1]


def operands(e):
    """All object/argument expressions of a call."""
    out = []
    if e.get("obj") is not None:
        out.append(e["obj"])
    out += list(e.get("args", ()))
    return out


def defs(B):
    """variable id -> its only defining expression (initialiser), for variables never assigned again"""
    d, bad = {}, set()
    for n in B.nodes:
        e = n.ast
        if e is None or n.kind != "ev":
            continue
        if e.get("k") == "Var":
            if e["id"] in d:
                bad.add(e["id"])
            d[e["id"]] = e.get("init")
        elif e.get("k") == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            k = key(e["a"])
            if k:
                if d.get(k) is not None or (e["op"] != "="):
                    bad.add(k)
                else:
                    d[k] = e["b"]
        elif e.get("k") == "Un" and e["op"] in ("++", "--", "p++", "p--"):
            k = key(e["e"])
            if k:
                bad.add(k)
    for b in bad:
        d.pop(b, None)
    return d


class Product:
    """The explored product of graph and automaton as a graph of its own (nodes split by automaton state), for a second analysis on it."""

    def __init__(self, F, step):
        B = F.B
        self.fn, self.frame0 = B.fn, B.frame0
        self.B, self.F = B, F
        idx = {}
        self.nodes, self.state = [], []

        def mk(i, s):
            if (i, s) not in idx:
                o = B.nodes[i]
                n = cfg.Node(len(self.nodes), o.kind, o.ast, o.fn, o.chain)
                n.extra = o.extra
                idx[(i, s)] = n
                self.nodes.append(n)
                self.state.append(s)
            return idx[(i, s)]
        for i in sorted(F.at):
            for s in sorted(F.at[i], key=repr):
                mk(i, s)
        for (i, s), n in list(idx.items()):
            o = B.nodes[i]
            for t, lab in o.succ:
                r = step(o, s, lab)
                for s2 in ([] if r is None else r if isinstance(r, list) else [r]):
                    n.succ.append((mk(t, s2).i, lab))
            if o.exc is not None:
                r = step(o, s, "exc")
                for s2 in ([] if r is None else r if isinstance(r, list) else [r])[:1]:
                    n.exc = mk(o.exc, s2).i
        self.idx = idx
        self.entry = min((n for (i, s), n in idx.items() if i == B.entry.i), key=lambda n: n.i)

    def orig(self, n):
        for (i, s), m in self.idx.items():
            if m is n:
                return i, s


class Flags:
    """Automaton of the local flags: bool variables only ever set to constants, so that a path is followed with the flags it has set."""

    def __init__(self, B):
        writes, taken = {}, set()
        for n in B.nodes:
            e = n.ast
            if n.kind != "ev" or e is None:
                continue
            k = e.get("k")
            if k == "Var" and not e.get("static") and base(e.get("t", "")) == "bool" and "&" not in e.get("t", ""):
                writes.setdefault(str(e["id"]), []).append(const(e.get("init")))
            elif k == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=") and strip(e["a"]).get("k") == "Ref" and strip(e["a"]).get("id"):
                writes.setdefault(str(strip(e["a"])["id"]), []).append(const(e["b"]) if e["op"] == "=" else None)
            elif k == "Un" and e["op"] == "&" or k == "Lambda" or k == "Var" and "&" in e.get("t", ""):
                taken |= {str(x["id"]) for x in walk(e) if x.get("k") == "Ref" and x.get("id")}
            elif k in ("Call", "Construct", "New"):
                taken |= {str(strip(a)["id"]) for a in operands(e) + list(e.get("args", ())) if strip(a) is not None and strip(a).get("k") == "Ref" and strip(a).get("id") and a.get("k") == "Ref"}
        decl = {str(n.ast["id"]) for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and base(n.ast.get("t", "")) == "bool" and not n.ast.get("static")}
        self.vars = {v for v, w in writes.items() if v in decl and v not in taken and None not in w and len(w) > 1}
        # conditions on constants, tested more than once
        self.consts = {str(n.ast["id"]) for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and n.ast.get("t", "").startswith("const ") and not n.ast["t"].rstrip().endswith("*")}
        seen = {}
        for n in B.nodes:
            if n.kind == "br" and n.ast is not None:
                t = self.cond(n.ast)
                if t is not None:
                    seen[t[0]] = seen.get(t[0], 0) + 1
        self.conds = {t for t, c in seen.items() if c > 1}

    def cond(self, e):
        """(text, ids) of a condition that only looks at constants"""
        e = strip(e)
        if e.get("k") != "Bin" or e["op"] not in ("<", ">", "<=", ">=", "==", "!="):
            return None
        ids, ts = set(), []
        for x in (e["a"], e["b"]):
            c = const_int(x)
            if c is not None:
                ts.append(str(c))
                continue
            k = key(x)
            y = strip(x)
            while y is not None and y.get("k") == "Cast":
                y = strip(y["e"])
                k = key(y)
            while y is not None and y.get("k") == "Member" and y.get("base") is not None:
                y = strip(y["base"])
            if k is None or y is None or y.get("k") != "Ref" or str(y.get("id")) not in self.consts:
                return None
            ids.add(str(y["id"]))
            ts.append(k)
        return (ts[0] + e["op"] + ts[1], ids) if ids else None

    def value(self, e, s, d=0):
        e = strip(e)
        if e is None or d > 8:
            return None
        if e.get("k") == "Cast":
            return self.value(e["e"], s, d + 1)
        if e.get("k") == "Un" and e["op"] == "!":
            v = self.value(e["e"], s, d + 1)
            return None if v is None else not v
        if e.get("k") == "Ref" and str(e.get("id")) in self.vars:
            return dict(s).get(str(e["id"]))
        return None

    def step(self, n, s, lab):
        e = n.ast
        if e is None:
            return s
        if n.kind == "br" and lab in (True, False):
            v = self.value(e, s)
            if v is None and self.conds:
                t = self.cond(e)
                if t is not None and t[0] in self.conds:
                    v = dict(s).get("?" + t[0])
                    if v is None:
                        return tuple(sorted(s + (("?" + t[0], lab),)))
            return None if v is not None and v != lab else s
        if n.kind == "ev":
            v = None
            if e.get("k") == "Var" and str(e.get("id")) in self.consts:
                s = tuple(x for x in s if not (x[0].startswith("?") and str(e["id"]) in x[0]))
            if e.get("k") == "Var" and str(e.get("id")) in self.vars:
                v, c = str(e["id"]), const(e.get("init"))
            elif e.get("k") == "Bin" and e["op"] == "=" and strip(e["a"]).get("k") == "Ref" and str(strip(e["a"]).get("id")) in self.vars:
                v, c = str(strip(e["a"])["id"]), const(e["b"])
            if v is not None:
                return tuple(sorted([x for x in s if x[0] != v] + [(v, c)]))
        return s


def base(t):
    return t.replace("const ", "").strip()


def const(e):
    v = cfg.cval(e) if e is not None else None
    return bool(v) if isinstance(v, (int, bool)) else None


def const_int(e):
    v = cfg.cval(e)
    return v if type(v) is int else None


def split(B):
    """The graph with its nodes split by the values of the local flags (the graph itself when there are none); .exits: the nodes where it is left."""
    F = Flags(B)
    if not F.vars and not F.conds:
        B.exits = [B.exit]
        return B
    G = Product(Flow(B, (), F.step), F.step)
    G.exits = [n for (i, s), n in G.idx.items() if i == B.exit.i]
    for n in G.nodes:
        n.preds = []
    for n in G.nodes:
        for t, lab in n.succ:
            G.nodes[t].preds.append((n.i, lab))
        if n.exc is not None:
            G.nodes[n.exc].preds.append((n.i, "exc"))
    return G
