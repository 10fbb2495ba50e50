"""C16: vis work distribution: lock discipline around portals."""
import re
import cfg, model, flow, effects, locks
from flow import key, short, operands
from model import strip, walk

RULE = ("Lock-set typestate over the inlined control-flow graph of the parallel portal worker and of every function in the repository that locks a mutex: "
        "each mutex is released on all normal and error paths and never taken twice; inside the worker, writes to a portal's status, mightsee set or its size and "
        "saving of the state happen only with the portal lock held; a portal is marked 'working' only in the critical section that found it idle, and 'done' only after "
        "its row was computed, and nothing is computed for it afterwards.")

CLS, PROT = "visportal_t", ("status", "mightsee", "nummightsee")
NONE, WORKING, DONE = 0, 1, 2


def prot_write(e):
    t = effects.write_target(e)
    if t is None and e.get("k") == "Call" and e.get("m") == 1 and operands(e) and short(e) not in ("data", "operator[]", "begin", "end", "at", "lock", "unlock") and e.get("op") != "[]":
        t = operands(e)[0]
    if t is None:
        return None
    for m in effects.members(t):
        if m.get("cls") == CLS and m["f"] in PROT:
            return m
    return None


def cval(e):
    for x in (e, strip(e)):
        if x is not None and "cv" in x:
            return x["cv"]
        if x is not None and x.get("k") == "Int":
            return x["v"]
    return None


def parallel_bodies(P, f):
    for x in model.fn_nodes(f):
        if x.get("k") == "Call" and short(x) in ("parallel_for", "parallel_for_each", "run", "parallel_invoke") and (
                x["n"].startswith("logging::") or "tbb" in x["n"] or "oneapi" in x["n"]):
            for a in x["args"]:
                for y in walk(a):
                    if y.get("k") == "Lambda":
                        for k in y.get("fns") or [y["fn"]]:
                            if k in P.fns:
                                yield x, P.fns[k]
                    if y.get("k") == "Ref" and y.get("fn") in P.fns:
                        yield x, P.fns[y["fn"]]


def status_test(e):
    """(key of the portal, op, constant) of a comparison of a portal's status with a constant"""
    e = strip(e)
    if e is None or e.get("k") != "Bin" or e["op"] not in ("==", "!="):
        return None
    for a, b in ((e["a"], e["b"]), (e["b"], e["a"])):
        m = strip(a)
        v = cval(b)
        if m is not None and m.get("k") == "Member" and m.get("cls") == CLS and m["f"] == "status" and v is not None:
            return m, e["op"], v
    return None


class Worker:
    """extra automaton: (idle test in this critical section?, phase, null facts)"""

    def __init__(self, P, B, flowfns, lockkey):
        self.P, self.B, self.flowfns, self.lk = P, B, flowfns, lockkey
        self.defs = flow.defs(B)
        self.bad = {}
        self.seen_working = self.seen_done = self.seen_flow = self.seen_prune = 0

    def note(self, n, kind, text):
        self.bad.setdefault((n.loc(), kind), (n, kind, text))

    def portal(self, m):
        """identity of the portal whose member this is"""
        return self.ident(m["base"])

    @staticmethod
    def ident(e):
        e = strip(e)
        while e is not None and e.get("k") == "Un" and e["op"] in ("&", "*"):
            e = strip(e["e"])
        return key(e) or "~" + model.path(e)

    def nullval(self, e, nulls):
        e = strip(e)
        if e is None:
            return None
        if e.get("k") in ("Null", "Zero") or e.get("k") == "Int" and e["v"] == 0:
            return "null"
        if e.get("k") == "Un" and e["op"] == "&":
            return "set"
        if e.get("k") == "Ref":
            return dict(nulls).get(key(e))
        return None

    def test(self, e, depth=0):
        t = status_test(e)
        if t:
            return t
        e = strip(e)
        if e is not None and e.get("k") == "Ref" and e.get("id") in self.defs and depth < 4:
            return self.test(self.defs[e["id"]], depth + 1)
        return None

    def step(self, n, H, X, lab):
        tested, phase, nulls = X
        e = n.ast
        held = any(m == self.lk for m, _ in H) if self.lk else bool(H)
        if not held:
            tested = frozenset()
        if e is None:
            return (tested, phase, nulls)
        if n.kind == "br" and lab in (True, False):
            t = self.test(e)
            if t and (t[1] == "==") == lab and t[2] == NONE and held:
                tested = tested | {self.portal(t[0])}
            p, pol = strip(e), lab
            while p is not None and p.get("k") == "Un" and p["op"] == "!":
                p, pol = strip(p["e"]), not pol
            if p is not None and p.get("k") == "Bin" and p["op"] in ("==", "!="):
                for a, b in ((p["a"], p["b"]), (p["b"], p["a"])):
                    if self.nullval(b, ()) == "null" and a.get("t", "").endswith("*"):
                        pol = pol if p["op"] == "!=" else not pol
                        p = strip(a)
                        break
            k = key(p) if p is not None and p.get("t", "").endswith("*") else None
            if k is not None:
                v = dict(nulls).get(k)
                if v == "null" and pol or v == "set" and not pol:
                    return None
                if v is None:
                    nulls = tuple(sorted(dict(nulls, **{k: "set" if pol else "null"}).items()))
            return (tested, phase, nulls)
        if n.kind != "ev" or lab == "exc":
            return (tested, phase, nulls)
        k = e.get("k")
        tgt = val = None
        if k in ("Var", "RVar"):
            tgt, val = e["id"], e.get("init")
            if not e.get("t", "").endswith("*"):
                tgt = None
        elif k == "Bin" and e["op"] == "=" and e["a"].get("t", "").endswith("*"):
            tgt, val = key(e["a"]), e["b"]
        if tgt:
            src = self.ident(val) if val is not None else None
            tested = tested | {tgt} if src in tested else tested - {tgt}
            d = dict(nulls)
            v = self.nullval(val, nulls) if val is not None else None
            d.pop(tgt, None)
            if v:
                d[tgt] = v
            nulls = tuple(sorted(d.items()))
        elif k in ("Var", "RVar"):
            src = self.ident(e["init"]) if e.get("init") is not None and e.get("t", "").endswith("&") else None
            tested = tested | {e["id"]} if src in tested else tested - {e["id"]}
        t = effects.write_target(e)
        if t is not None and strip(t).get("k") == "Ref":
            nm = re.compile(r"\b%s\b" % re.escape(strip(t).get("n", "?")))
            tested = frozenset(x for x in tested if not (x[0] == "~" and nm.search(x)))
        w = prot_write(e)
        if w is not None:
            if held and w["f"] != "status":
                self.seen_prune += 1
                if self.portal(w) not in tested:
                    self.note(n, "prune-idle", "%s of a portal that was not found idle in this critical section is changed" % w["f"])
            if not held:
                self.note(n, "unlocked-write", "%s of a portal is changed without the portal lock" % w["f"])
            if w["f"] == "status" and k == "Bin" and e["op"] == "=":
                v = cval(e["b"])
                if v == WORKING:
                    self.seen_working += 1
                    if self.portal(w) not in tested:
                        self.note(n, "test-and-set", "a portal is marked as being worked on outside the critical section that found it idle")
                    phase = "working"
                elif v == DONE:
                    self.seen_done += 1
                    if phase != "flowed":
                        self.note(n, "done-before-row", "a portal is marked done although its row has not been computed on this path")
                    phase = "done"
                elif v == NONE:
                    pass
        if k == "Call":
            fs = {g["key"] for g in self.P.callees(e)}
            if fs & self.flowfns:
                self.seen_flow += 1
                if phase == "done":
                    self.note(n, "row-after-done", "a portal's row is computed after it was marked done")
                if held:
                    self.note(n, "flow-locked", "a portal's row is computed with the portal lock held")
                if phase == "working":
                    phase = "flowed"
            if e["n"].split("::")[-1] == "SaveVisState" and not held:
                self.note(n, "unlocked-save", "the state is saved without the portal lock")
        return (tested, phase, nulls)


def run(ck):
    P = ck.load()
    cg = effects.callgraph(P)
    # 1. every function using a mutex: balanced
    for f in sorted(P.fns.values(), key=lambda f: (f["f"], f["l"])):
        if not f.get("body") or not locks.uses_locks(f):
            continue
        if f["f"].startswith(("3rdparty", "tests")):
            continue
        B = cfg.Builder(P, inline=lambda fn, c, d: locks.uses_locks(fn), max_depth=4).build(f)
        L = locks.Locks(P, B)
        ck.count("states_explored", L.F.visited)
        name = f["n"].split("(")[0]
        for n, kind, m, text in L.problems.values():
            ck.ob("balanced", "%s:%s:%s" % (name, kind, m), False, n.where(), text)
        if not L.problems:
            ck.ob("balanced", name, True, model.loc(f), "every lock is released on all paths, including errors, and never taken twice")
    # 2. the worker
    touch = set()
    flowfns = set()
    for k, f in P.fns.items():
        if not f["f"].startswith(("vis/", "include/vis/")):
            continue
        for x in model.fn_nodes(f):
            if prot_write(x) is not None:
                touch.add(k)
            if x.get("k") in ("Var", "Construct", "Call"):
                args = []
                if x["k"] == "Var" and x.get("init") is not None and x["init"].get("k") in ("InitList", "Init"):
                    args = x["init"].get("c", ())
                elif x["k"] != "Var":
                    args = [a for i, a in enumerate(x.get("args", ())) if i < len(x.get("mp", ())) and x["mp"][i]]
                for a in args:
                    m = strip(a)
                    if m is not None and m.get("k") == "Member" and m.get("cls") == CLS and m["f"] == "visbits" and not m.get("t", "").startswith("const"):
                        flowfns.add(k)
    regions = []
    for f in P.fns.values():
        if f["f"].startswith("vis/"):
            for call, body in parallel_bodies(P, f):
                r = effects.reach(P, [body["key"]])
                if any(k in r and any(prot_write(x) is not None and prot_write(x)["f"] == "status" for x in model.fn_nodes(P.fns[k])) for k in touch):
                    regions.append((f, call, body))
    if not regions:
        raise model.AnalysisBroken("no parallel region that completes portals")
    relevant = {}

    def rel(fn):
        k = fn["key"]
        if k not in relevant:
            relevant[k] = False
            r = effects.reach(P, [k], stop=lambda g: g["n"].startswith("logging::"))
            relevant[k] = not fn["n"].startswith(("logging::", "fmt::", "Error", "VError")) and fn["n"] != "SaveVisState" and k not in flowfns and (
                bool(r & touch) or any(locks.uses_locks(P.fns[x]) or x in flowfns or P.fns[x]["n"] == "SaveVisState" for x in r) or
                any(x.get("k") == "Member" and x.get("cls") == CLS and x["f"] == "status" for x in model.fn_nodes(fn)))
        return relevant[k]
    for f, call, body in regions:
        B = cfg.Builder(P, inline=lambda fn, c, d: rel(fn), max_depth=8).build(body)
        # the portal lock: held at status writes
        L0 = locks.Locks(P, B)
        cnt = {}
        for n in B.nodes:
            if n.kind == "ev" and n.ast is not None and prot_write(n.ast) is not None:
                for s in L0.F.states(n):
                    for m, _ in s[0]:
                        cnt[m] = cnt.get(m, 0) + 1
        lk = max(cnt, key=lambda m: cnt[m]) if cnt else None
        W = Worker(P, B, flowfns, lk)
        L = locks.Locks(P, B, (frozenset(), "idle", ()), W.step)
        ck.count("states_explored", L.F.visited)
        name = f["n"]
        for n, kind, text in W.bad.values():
            ck.ob(kind, "%s:%s:%s" % (name, n.fn["n"], kind), False, n.where(), text)
        for n, kind, m, text in L.problems.values():
            ck.ob("worker-balanced", "%s:%s:%s" % (name, kind, m), False, n.where(), text)
        kinds = {b[1] for b in W.bad.values()}
        for n in B.nodes:
            if n.kind == "ev" and n.ast is not None and L.F.states(n):
                w = prot_write(n.ast)
                if w is not None and "unlocked-write" not in kinds:
                    ck.ob("unlocked-write", "%s:%s:%s" % (name, n.fn["n"], w["f"]), True, n.where(), "changed with the lock %s held" % lk)
                if n.ast.get("k") == "Call" and short(n.ast) == "SaveVisState" and "unlocked-save" not in kinds:
                    ck.ob("unlocked-save", "%s:%s" % (name, n.fn["n"]), True, n.where(), "state saved with the lock %s held" % lk)
        for kind, c, text in (("test-and-set", W.seen_working, "portal marked working in the critical section that found it idle"),
                              ("done-before-row", W.seen_done, "portal marked done after its row was computed"),
                              ("row-after-done", W.seen_flow, "no row is computed after a portal was marked done"),
                              ("prune-idle", W.seen_prune, "only the candidate sets of idle portals are pruned"),
                              ("flow-locked", W.seen_flow, "rows are computed without holding the lock")):
            if kind not in kinds:
                if c:
                    ck.ob(kind, name, True, model.loc(f, call), text)
                else:
                    raise model.AnalysisBroken("the portal worker has no event for rule " + kind)
    ck.floor("balanced", 4)
    ck.floor("unlocked-write", 3)
