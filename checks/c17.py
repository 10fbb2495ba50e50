"""C17: parallel loops and tasks touch shared state only in ways that are safe for every schedule."""
import model, effects, par
from flow import short, operands
from model import strip, walk, fn_nodes

RULE = ("Interprocedural write/read-effect summaries over access paths (parameters, captures, globals, through references, pointers, iterators and calls, with lock sets) for the "
        "body of every parallel loop and task: each location written must be thread-local, atomic or a concurrent container, indexed by the loop's own index or owned by its own "
        "element, guarded by one common lock also held by every other access, or a flag only ever set to one constant; data written by one iteration is not read by others; sibling "
        "tasks write disjoint locations; atomics are not updated by separate load and store; waiting loops on an atomic flag do not fall through.")

SKIP = ("logging::", "fmt::")


def body_args(A, I, call):
    for a in call["args"]:
        for g in A.lambdas(I, a):
            yield g


class Names:
    def __init__(self, P):
        self.P = P

    def var(self, f, i):
        """name of a captured variable, looking outwards"""
        while f is not None:
            for p in f["params"]:
                if p["id"] == i:
                    return p["n"]
            for x in fn_nodes(f):
                if x.get("k") in ("Var", "Decomp") and x["id"] == i:
                    return x["n"]
                if x.get("k") == "RFor" and x["var"]["id"] == i:
                    return x["var"]["n"]
            f = self.P.fns.get(f.get("in"))
        return "?"

    def show(self, f, l):
        r, p = l[-2:]
        s = {"g": lambda: r[1].split("@")[0].split(":")[-1], "p": lambda: "element" if r[1] == 0 else "arg%d" % r[1], "t": lambda: "this", "v": lambda: self.var(f, r[1])}[r[0]]()
        for x in p:
            s += "[%s]" % {"p": "i", "o": "?", "c": str(x[1][-1]), "v": "v"}[x[1][0]] if isinstance(x, tuple) else {"*": "->", "~": "->", "...": "..."}.get(x, "." + x)
        return s


def vartype(A, f, l):
    r = l[-2]
    if r[0] == "g":
        v = A.P.vars.get(r[1])
        return v
    if r[0] == "v":
        g = f
        while g is not None:
            I = A.fi(g)
            if r[1] in I.own:
                return I.own[r[1]]
            if r[1] in I.parm:
                return g["params"][I.parm[r[1]]]
            g = A.P.fns.get(g.get("in"))
    return None


def own_pos(l, foreach):
    """position in the path after which everything belongs to this iteration, or None"""
    r, p = l[-2:]
    if r[0] == "p" and r[1] == 0 and foreach:
        i = 1 if p and p[0] in ("*", "~") else 0
        return i
    for i, s in enumerate(p):
        if isinstance(s, tuple) and s[1] == ("p", 0):
            return i + 1
    return None


def owned(l, foreach):
    i = own_pos(l, foreach)
    return i is not None and "*" not in l[-1][i:]


def byref(A, call, I, l):
    """is the captured variable shared with the other iterations?"""
    r, p = l[-2:]
    if "*" in p:
        return True
    for a in call["args"]:
        for x in walk(a):
            if x.get("k") == "Lambda":
                for c in x.get("caps", ()):
                    if c.get("id") == r[1] and not c.get("ref"):
                        return False
    return True


def compatible(p, q):
    """may two paths from the same root denote overlapping storage?"""
    for a, b in zip(p, q):
        if a == "..." or b == "...":
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[1][0] == "c" and b[1][0] == "c" and a[1][1] != b[1][1]:
                return False
            continue
        if a != b:
            if {a, b} == {"*", "~"}:
                continue
            return False
    return True


def byte_alloc(A, f, l):
    """a byte buffer filled at offsets that were handed out by the allocator (see C21)"""
    v = vartype(A, f, l)
    r, p = l[-2:]
    return v is not None and par.bare(v.get("t", "")).startswith("std::vector<unsigned char") and len(p) >= 1 and all(isinstance(s, tuple) for s in p)


def entry_locks(A, roots):
    """locks held on every call path from the region body to each function"""
    P = A.P
    E = {g["key"]: frozenset() for g in roots}
    work = list(E)
    sites = {}
    while work:
        k = work.pop()
        f = P.fns[k]
        H = A.held(f)[0]
        I = A.fi(f)
        for x in fn_nodes(f):
            tg = []
            if x.get("k") == "Call":
                tg = [g for g in P.callees(x)]
                for a in x.get("args", ()):
                    tg += A.lambdas(I, a)
            elif x.get("k") == "Construct" and x.get("fn") in P.fns:
                tg = [P.fns[x["fn"]]]
            for g in tg:
                if A.skip(g):
                    continue
                h = (H.get(id(x), frozenset()) | E[k])
                h = frozenset(m for m in h if m[0][0] == "g" or m[0][0] == "v")
                o = E.get(g["key"])
                n = h if o is None else o & h
                if o is None or n != o:
                    E[g["key"]] = n
                    work.append(g["key"])
    return E


def run(ck):
    P = ck.load()
    A = par.Par(P, skip=lambda g: g["n"].startswith(SKIP) or g["n"] in ("Error", "VError"), reads=True)
    N = Names(P)
    regions = []
    for f in sorted(P.fns.values(), key=lambda f: (f["f"], f["l"], f["key"])):
        if f["f"].endswith("parallel.hh"):
            continue
        for x in fn_nodes(f):
            if par.is_par(x):
                bs = list(body_args(A, A.fi(f), x))
                if not bs and short(x) in ("parallel_for", "parallel_for_each", "run"):
                    raise model.AnalysisBroken("%s: the body of this parallel construct is not understood" % model.loc(f, x))
                for b in bs:
                    A.summary(b)
                    regions.append((f, x, b))
    A.fix()
    ck.count("parallel_regions", len(regions))
    ck.count("functions_summarised", len(A.sum))
    groups = {}
    for f, x, b in regions:
        name = f["n"].split("(")[0]
        if short(x) == "run":
            groups.setdefault(f["key"], []).append((f, x, b))
            continue
        region(ck, A, N, f, x, b, name)
    for k, g in groups.items():
        tasks(ck, A, N, g)
    atomics(ck, P)
    own_number(ck, P, sorted({b["key"] for f, x, b in regions}))
    ck.floor("shared-write", 20)
    ck.floor("task-captures", 1)


def ok_type(A, f, l):
    v = vartype(A, f, l)
    return v is not None and (v.get("tls") or par.safe_type(v.get("t")))


def region(ck, A, N, f, x, b, name):
    foreach = short(x) == "parallel_for_each"
    S = A.sum[b["key"]]
    I = A.fi(f)
    # the claim protocol of the vis worker is C16's subject
    claim = any(y.get("k") == "Member" and y.get("cls") == "visportal_t" and y["f"] == "status" for k in effects.reach(A.P, [b["key"]]) for y in fn_nodes(A.P.fns[k])) and b["f"].startswith("vis/")
    writes = [l for l in S if l[0] != "R"]
    shared = []
    for l in sorted(writes, key=str):
        site, locks, kind = S[l]
        r, p = l
        what = N.show(b, l)
        key = "%s:%s" % (name, what)
        locks = frozenset(m for m in locks if m[0][0] in ("g", "v", "t"))
        how = None
        if r[0] == "p" and not foreach:
            continue
        if r[0] == "v" and not byref(A, x, I, l):
            continue
        if ok_type(A, b, l):
            how = "thread-local or atomic"
        elif owned(l, foreach):
            how = "belongs to this iteration"
            shared.append((l, site))
        elif locks:
            how = "under the lock " + ", ".join(sorted(N.show(b, m) for m in locks))
        elif kind.startswith("sticky"):
            others = [S[m][2] for m in writes if m == l]
            how = "flag only ever set to one value"
        elif byte_alloc(A, b, l):
            how = "byte buffer filled at allocated offsets"
        elif claim and "portals" in what:
            how = "portal claimed by this worker (C16)"
        ck.ob("shared-write", key, how is not None, site,
              "%s: %s" % (what, how) if how else "%s is written by the iterations of the parallel loop in %s (%s) without any protection" % (what, name, model.loc(f, x)))
    # lock-protected state: every access in the region holds a common lock
    prot = {}
    for l in writes:
        site, locks, kind = S[l]
        locks = frozenset(m for m in locks if m[0][0] in ("g", "v", "t"))
        if locks and not ok_type(A, b, l) and not owned(l, foreach) and l[0][0] in ("g", "v"):
            prot[l] = locks if l not in prot else prot[l] & locks
    if prot:
        roots = {}
        for l, lk in prot.items():
            if any(isinstance(s, str) for s in l[1]):
                continue  # fields of shared objects: only the variable itself is followed
            roots.setdefault(l[0], []).append(lk)
        E = None
        for r, lks in sorted(roots.items(), key=str):
            common = frozenset.intersection(*lks)
            what = N.show(b, (r, ()))
            ck.ob("common-lock", "%s:%s" % (name, what), bool(common), model.loc(f, x), "all writers of %s hold the same lock" % what if common else
                  "the writers of %s hold different locks" % what)
            if not common:
                continue
            E = E or entry_locks(A, [b])
            for k, h in E.items():
                g = A.P.fns[k]
                H = A.held(g)[0]
                for y in fn_nodes(g):
                    if y.get("k") == "Ref" and (r[0] == "g" and y.get("gk") == r[1] or r[0] == "v" and y.get("id") == r[1] and y.get("cap")):
                        held = H.get(id(y), frozenset()) | h
                        ck.ob("common-lock", "%s:%s:%s" % (name, what, g["n"].split("(")[0]), bool(common & held), model.loc(g, y),
                              "%s is used with the lock held" % what if common & held else "%s is used without the lock its writers hold" % what)
    # data owned by other iterations is not read
    bad = 0
    for l, site in shared:
        i = own_pos(l, foreach)
        if l[0][0] == "p":
            continue
        for m in S:
            if m[0] != "R" or m[1] != l[0]:
                continue
            q = m[2]
            if len(q) < len(l[1]) or not compatible(l[1], q) or owned(m, foreach):
                continue
            st = q[i - 1] if len(q) >= i else None
            if not isinstance(st, tuple) or st[1] == ("p", 0):
                continue
            rs, rl, _ = S[m]
            if rl and S[l][1] & rl:
                continue
            bad += 1
            ck.ob("foreign-read", "%s:%s" % (name, N.show(b, m)), False, rs, "%s is read although another iteration may be writing it (%s at %s)" % (N.show(b, m), N.show(b, l), site))
    if shared and not bad:
        ck.ob("foreign-read", name, True, model.loc(f, x), "no iteration reads what other iterations write (%d owned locations)" % len(shared))


def tasks(ck, A, N, g):
    f = g[0][0]
    name = f["n"].split("(")[0]
    I = A.fi(f)
    # a task must not see a variable its spawner goes on to change
    for _, x, b in g:
        caps = {c["id"]: c for a in x["args"] for y in walk(a) if y.get("k") == "Lambda" for c in y.get("caps", ()) if c.get("ref") and "id" in c}
        bad = set()
        for lp in fn_nodes(f):
            if lp.get("k") in ("For", "While", "Do", "RFor") and any(y is x for y in walk(lp)):
                inside = {y["id"] for y in walk(lp["body"]) if y.get("k") == "Var"}
                for y in walk(lp):
                    t = effects.write_target(y)
                    t = strip(t) if t is not None else None
                    if t is not None and t.get("k") == "Ref" and t.get("id") in caps and t["id"] not in inside:
                        bad.add(t["id"])
        for i in bad:
            ck.ob("tasks", "%s:captured:%s" % (name, caps[i]["n"]), False, model.loc(f, x), "the task refers to '%s', which %s changes while the task may be running" % (caps[i]["n"], name))
        if not bad:
            ck.ob("task-captures", name, True, model.loc(f, x), "no variable captured by reference is changed by the spawning loop")
    for i in range(len(g)):
        for j in range(i + 1, len(g)):
            (_, xa, a), (_, xb, b) = g[i], g[j]
            Sa, Sb = A.sum[a["key"]], A.sum[b["key"]]
            bad = []
            for S1, S2, b1, b2 in ((Sa, Sb, a, b), (Sb, Sa, b, a)):
                for l in S1:
                    if l[0] == "R" or l[0][0] not in ("g", "v", "t"):
                        continue
                    if ok_type(A, b1, l) or S1[l][2].startswith("sticky"):
                        continue
                    for m in S2:
                        if m[-2] != l[0]:
                            continue
                        if m[0] == "R" and len(m[-1]) < len(l[1]):
                            continue
                        if l[0][0] == "v" and (not byref(A, xa, I, l) or not byref(A, xb, I, m)):
                            continue
                        if not compatible(l[1], m[-1]):
                            continue
                        if S1[l][1] & S2[m][1]:
                            continue
                        bad.append((l, m, S1[l][0], S2[m][0], b1))
            for l, m, s1, s2, bb in bad[:6]:
                ck.ob("tasks", "%s:%s" % (name, N.show(bb, l)), False, s1, "two tasks started by %s may use %s at the same time (also %s at %s)" % (name, N.show(bb, l), N.show(bb, m), s2))
            if not bad:
                n = sum(1 for l in Sa if l[0] != "R") + sum(1 for l in Sb if l[0] != "R")
                ck.ob("tasks", "%s:%d" % (name, i), True, model.loc(f, xa), "tasks write disjoint locations (%d)" % n)


def same(a, b):
    return model.path(strip(a)) == model.path(strip(b))


def depends(f, v, t, seen):
    """does the value contain a load of the atomic t (also through locals)?"""
    for y in walk(v):
        if y.get("k") in ("Ref", "Member") and same(y, t) and par.safe_type(y.get("t")):
            return True
        if y.get("k") == "Ref" and y.get("dk") == "var" and y["id"] not in seen:
            seen.add(y["id"])
            for z in fn_nodes(f):
                if z.get("k") == "Var" and z["id"] == y["id"] and z.get("init") is not None and not z.get("t", "").endswith("&") and depends(f, z["init"], t, seen):
                    return True
                if z.get("k") == "Bin" and z["op"] == "=" and strip(z["a"]).get("id") == y["id"] and depends(f, z["b"], t, seen):
                    return True
    return False


def guards(f, x):
    """conditions the node x is under"""
    out = []

    def rec(n, cs):
        if n is x:
            out.extend(cs)
            return True
        for k in model.kids(n):
            c2 = cs
            if n.get("k") in ("If", "While", "For") and n.get("cond") is not None and k is not n["cond"]:
                c2 = cs + [n["cond"]]
            if n.get("k") == "Cond" and k is not n["cond"]:
                c2 = cs + [n["cond"]]
            if rec(k, c2):
                return True
        return False
    if f.get("body"):
        rec(f["body"], [])
    return out


def own_number(ck, P, bodies):
    """a number drawn from a shared counter is the one the update returned, not one read afterwards"""
    for k in sorted(effects.reach(P, bodies)):
        f = P.fns[k]
        if not f.get("body") or f["f"].startswith(("3rdparty", "tests")):
            continue
        locals_ = {x["id"] for x in fn_nodes(f) if x.get("k") == "Var" and not x.get("static") and not x.get("t", "").endswith("&")}
        upd, loads, inner = [], [], set()
        for i, x in enumerate(fn_nodes(f)):
            if x.get("k") == "Call" and operands(x) and par.bare(operands(x)[0].get("t", "")).startswith(("std::atomic", "std::__atomic")):
                o = operands(x)
                r = effects.root(o[0])
                if r is None or r.get("k") == "Ref" and r.get("id") in locals_ and not r.get("cap"):
                    continue
                if x.get("op") in ("++", "--", "+=", "-=") or short(x).startswith("fetch_"):
                    upd.append((i, x, model.path(o[0])))
                elif short(x) == "load" or short(x).startswith("operator ") or x.get("op") is None and not x.get("args") and "atomic" not in x.get("t", "") and short(x) not in ("is_lock_free",):
                    loads.append((i, x, model.path(o[0])))
        for i, x, p in upd:
            bad = [y for j, y, q in loads if q == p and j > i]
            ck.ob("own-number", "%s:%s" % (f["n"].split("(")[0], p), not bad, model.loc(f, bad[0] if bad else x),
                  "the counter's value is the one its update returned" if not bad else "%s is updated and then read again: another thread's update may lie in between" % p)


def atomics(ck, P):
    """no lost update: the new value of a shared atomic is not computed from a separate load"""
    for f in sorted(P.fns.values(), key=lambda f: (f["f"], f["l"], f["key"])):
        if f["f"].startswith(("3rdparty", "tests")):
            continue
        locals_ = {x["id"] for x in fn_nodes(f) if x.get("k") == "Var" and not x.get("static") and not x.get("t", "").endswith("&")}
        for x in fn_nodes(f):
            if x.get("k") != "Call":
                continue
            t = v = None
            o = operands(x)
            if o and par.bare(o[0].get("t", "")).startswith(("std::atomic", "std::__atomic")):
                if x.get("op") == "=" and len(o) == 2:
                    t, v = o
                elif short(x) == "store" and x.get("args"):
                    t, v = o[0], x["args"][0]
            if t is None:
                continue
            r = effects.root(t)
            if r is not None and r.get("k") == "Ref" and r.get("id") in locals_ and not r.get("cap"):
                continue
            bad = depends(f, v, t, set()) or "cv" not in v and strip(v).get("k") != "Int" and any(depends(f, c, t, set()) for c in guards(f, x))
            ck.ob("lost-update", "%s:%s" % (f["n"].split("(")[0], model.path(t)), not bad, model.loc(f, x),
                  "stored value does not depend on a separate load" if not bad else "%s is updated by a load and a separate store: updates made in between are lost" % model.path(t))
        # spin loops
        for x in fn_nodes(f):
            if x.get("k") not in ("While", "Do", "For"):
                continue
            for y in walk(x):
                if y.get("k") == "Call" and short(y) in ("compare_exchange_weak", "compare_exchange_strong") and len(y.get("args", ())) >= 2:
                    exp, des = y["args"][0], y["args"][1]
                    er = strip(exp)
                    if er.get("k") != "Ref":
                        continue
                    # a failed exchange overwrites the expected value: it is either part of the condition for going on or set again
                    uses = any(z.get("k") == "Ref" and z.get("id") == er["id"] and z is not er for c in (x.get("cond"),) if c is not None for z in walk(c))
                    sets = any(z.get("k") == "Bin" and z["op"] == "=" and strip(z["a"]).get("id") == er["id"] for z in walk(x))
                    decl = any(z.get("k") == "Var" and z["id"] == er["id"] for z in walk(x["body"])) if x.get("body") else False
                    dep = any(z.get("k") == "Ref" and z.get("id") == er["id"] for z in walk(des))
                    const = "cv" in des or strip(des).get("k") == "Int"
                    ok = not const or sets or decl or dep
                    ck.ob("spin", "%s:%s" % (f["n"].split("(")[0], model.path(er)), ok, model.loc(f, y),
                          "the expected value is renewed on every attempt" if ok else
                          "a failed exchange leaves the other thread's value in '%s', so the next attempt succeeds although the lock is held" % model.path(er))
