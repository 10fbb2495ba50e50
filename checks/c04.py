"""C04: values that do not fit the output format are refused, never changed."""
import bspver, cfg, effects, flow, model, par, prov, pwa
from facts import INT_RANGE, base_type
from flow import key, short, operands
from model import strip

RULE = ("Every instance of the range-checked cast is interpreted exactly (piecewise-affine domain) over its whole source range: identity inside the "
        "destination range, an exception outside. Provenance dataflow shows that each field of each on-disk record, and each element of each converted lump, "
        "reaches it through that cast or a value-preserving conversion. Typestate exploration of the conversion function: on every path that reports "
        "failure, and on every path an overflow leaves, the map, its version and its load version are untouched; on success the version is the requested one "
        "and the map was replaced. The overflow exception must be caught there. Typestate exploration of the compiler's output step: the file is written "
        "only after a successful conversion; the second attempt only to the extended format, only after that format was found to exist and upgrading was "
        "allowed. Version table: an extended format belongs to the same game and none of its records is smaller.")


def ident_or_throw(P, f, src, dst):
    """None if f is identity on dst's range and throws elsewhere, else a description."""
    ps = pwa.PWA(P, f).run()
    lo, hi = pwa.type_range(src)
    dr = pwa.type_range(dst)
    bad = []
    cur = lo
    for l, h, k, v in ps:
        if l > cur:
            bad.append("no result on [%d,%d]" % (cur, l - 1))
        cur = h + 1
        if k == "throw":
            a, b = max(l, dr[0]), min(h, dr[1])
            if a <= b:
                bad.append("refuses [%d,%d], which fits" % (a, b))
        elif v != (1, 0):
            if not (l == h and v is not None and v[0] * l + v[1] == l):
                bad.append("changes the value on [%d,%d]" % (l, h))
        elif l < dr[0] or h > dr[1]:
            bad.append("lets [%d,%d] through" % (l, h))
    if cur <= hi:
        bad.append("no result on [%d,%d]" % (cur, hi))
    return bad, len(ps)


def casts(ck, P):
    for f in sorted(P.fns.values(), key=lambda f: f["key"]):
        if f["n"].split("<")[0] != "numeric_cast" or not f.get("body"):
            continue
        src, dst = base_type(f["params"][0]["t"]).replace("const ", ""), base_type(f["ret"]).replace("const ", "")
        k = "numeric_cast<%s<-%s>" % (dst, src)
        try:
            bad, n = ident_or_throw(P, f, src, dst)
            ck.ob("cast", k, not bad, model.loc(f), "range-checked cast must return the value unchanged or throw (%s)" % ("; ".join(bad[:3]) or "%d pieces" % n))
        except pwa.Unknown as ex:
            ck.ob("cast", k, False, model.loc(f), "not decidable as an affine map: %s" % ex)
    ck.floor("cast", 6)


def fields(ck, P):
    import c03
    for X, G, cf, of in sorted(c03.record_pairs(P), key=lambda x: x[0]):
        ident = set()
        for h in c03.helpers(P, cf):
            try:
                ps = pwa.PWA(P, h).run()
                vals = []
                bad = []
                dr = pwa.type_range(h["ret"])
                for l, hh, k, v in ps:
                    if k == "throw":
                        continue
                    if v is None or v[0] not in (1, -1) and l != hh:
                        bad.append("several values map to one on [%d,%d]" % (l, hh))
                        continue
                    y = sorted((v[0] * l + v[1], v[0] * hh + v[1]))
                    if y[0] < dr[0] or y[1] > dr[1]:
                        bad.append("result outside its type")
                    vals.append((y[0], y[1], l, hh))
                vals.sort()
                for a, b in zip(vals, vals[1:]):
                    if a[1] >= b[0]:
                        bad.append("[%d,%d] and [%d,%d] both become %d" % (a[2], a[3], b[2], b[3], b[0]))
                ck.ob("folded-cast", h["n"], not bad, model.loc(h), "two different values must never be stored as the same one: " + ("; ".join(bad[:3]) or "%d affine pieces, disjoint images" % len(ps)))
                ident.add(h["n"])
            except pwa.Unknown as ex:
                ck.ob("folded-cast", h["n"], False, model.loc(h), "not decidable as an affine map: %s" % ex)
                ident.add(h["n"])
        pc = prov.Prov(P, cf, primitives=("numeric_cast",) + tuple(ident))
        for fd in P.rec(X)["fields"]:
            src = pc.query(("this", fd["n"]))
            ls = set(l for s, l2 in src for l in l2)
            b = sorted(l for l in ls if l.startswith(("narrow", "trunc")))
            ck.ob("checked-type", "%s.%s" % (X, fd["n"]), not ("sign" in ls and any(l.startswith("prim:numeric_cast") for l in ls)), model.loc(cf),
                  "the range check must be made for the type of the field itself, not one of other signedness")
            ck.ob("field", "%s.%s" % (X, fd["n"]), not b, model.loc(cf), "wide value stored in a narrow field without the range check (%s)" % ", ".join(b))
    for f in P.fns.values():
        ps = [p["t"].replace("const ", "").replace(" &", "") for p in f["params"]]
        if not (len(ps) == 2 and ps[0] == "mbsp_t" and f["ret"] in P.recs and ps[1].startswith("bspversion_t")):
            continue
        pb = prov.Prov(P, f, inline=lambda g, c, d: not g.get("cls"))
        for fd in P.rec(f["ret"])["fields"]:
            ls = set(l for s, l2 in pb.query(("ret", fd["n"])) for l in l2)
            b = sorted(l for l in ls if l.startswith(("narrow", "trunc")))
            ck.ob("lump", "%s.%s" % (f["ret"], fd["n"]), not b, model.loc(f), "elements copied to a narrower type without the range check (%s)" % ", ".join(b))
    ck.floor("field", 60)
    ck.floor("lump", 30)


def throws_overflow(P):
    """functions an overflow_error can leave"""
    out = set()
    for k, f in P.fns.items():
        for x in model.fn_nodes(f):
            if x.get("k") == "Throw" and any("overflow_error" in y.get("t", "") for y in model.walk(x)):
                if f["n"].split("<")[0] == "numeric_cast":
                    try:  # an instance no value can overflow in
                        if not any(q[2] == "throw" for q in pwa.PWA(P, f).run()):
                            continue
                    except pwa.Unknown:
                        pass
                out.add(k)
    cg = effects.callgraph(P)
    rev = {}
    for a, bs in cg.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    st = list(out)
    while st:
        for a in rev.get(st.pop(), ()):
            if a not in out and not any(x.get("k") == "Try" for x in model.fn_nodes(P.fns[a])):
                out.add(a)
                st.append(a)
    return out


CATCHES = ("overflow_error", "runtime_error", "std::exception", "...")


def convert(ck, P):
    fs = [f for f in P.named("ConvertBSPFormat") if f.get("body")]
    if len(fs) != 1:
        raise model.AnalysisBroken("ConvertBSPFormat")
    f = fs[0]
    ov = throws_overflow(P)

    def pol(fn, c, d):
        return any("bspdata_t" in p["t"] for p in fn["params"]) or (fn.get("lambda") and True)
    B = cfg.Builder(P, inline=pol, max_depth=4).build(f)
    D = flow.defs(B)
    aliases = {}  # references into the map
    root = B.frame0.map[f["params"][0]["id"]]
    to = B.frame0.map[f["params"][1]["id"]]

    def rooted(e, d=0):
        """member path below the map argument, or None"""
        e = strip(e)
        if e is None or d > 20:
            return None
        k = e.get("k")
        if k == "Ref":
            i = e.get("id")
            if i == root:
                return ()
            if i in aliases:
                return aliases[i]
            return None
        if k == "Member":
            b = rooted(e["base"], d + 1) if e.get("base") is not None else None
            return None if b is None else b + (e["f"],)
        if k == "Un" and e["op"] in ("*", "&"):
            return rooted(e["e"], d + 1)
        if k == "Call" and (e.get("op") in ("*", "->", "[]") or short(e) in ("get", "get_if", "move", "forward", "as_const")):
            o = operands(e)
            return rooted(o[0], d + 1) if o else None
        return None
    for n in B.nodes:
        e = n.ast
        if n.kind == "ev" and e and e.get("k") == "Var" and e.get("t", "").rstrip().endswith(("&", "*")) and e.get("init") is not None:
            r = rooted(e["init"])
            if r is not None:
                aliases[e["id"]] = r

    def writes(e):
        """written member of the map, or None"""
        t = effects.write_target(e)
        if t is not None:
            r = rooted(t)
            if r:
                return r[0]
        if e.get("k") == "Call":
            for g in P.callees(e) or ():
                off = 0
                for p, a in zip(g["params"], e.get("args", ())[off:]):
                    pt = p["t"].rstrip()
                    if pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&") and g["n"].split("::")[-1] not in ("get", "move", "forward", "holds_alternative") and not g["n"].startswith("std::"):
                        r = rooted(a)
                        if r:
                            return r[0]
                        if r == () and g["key"] not in B.inlined:
                            return "bsp"
        return None

    def is_to(e):
        e = strip(e)
        i = 0
        while e is not None and e.get("k") == "Ref" and e.get("id") in D and e["id"] != to and i < 5:
            e, i = strip(D[e["id"]]), i + 1
        return e is not None and e.get("k") == "Ref" and e.get("id") == to

    def moved(e):
        """the map's own contents are moved from as part of e"""
        for x in model.walk(e):
            if x.get("k") == "Call" and short(x) == "move" and x.get("args"):
                r = rooted(x["args"][0])
                if r:
                    return r
        return None
    sites = []

    # state: (frozenset of modified members, thrown overflow?, version ok?, returned value)
    def step(n, s, lab):
        mod, ovf, ver, ret = s
        e = n.ast
        if n.kind == "catch":
            if ovf and isinstance(lab, tuple) and lab[0] == "handler":
                hit = False
                for h in e["h"]:
                    t = "..." if h.get("all") else h.get("t", "...")
                    if any(c in t for c in CATCHES):
                        hit = t
                        break
                if lab[1] == "uncaught":
                    return None if hit else s
                return (mod, False, ver, ret) if hit and (lab[1] == hit or lab[1] == "..." and hit == "...") else None
            return s
        if n.kind != "ev" or e is None:
            return s
        if lab == "exc":
            x = e
            if x.get("k") == "Call" and any(g["key"] in ov for g in P.callees(x)):
                sites.append(n)
                return (mod, True, ver, ret)
            return s if x.get("k") == "Throw" else None
        if e.get("k") == "Return":
            return (mod, ovf, ver, cfg.cval(e["e"]) if e.get("e") is not None else None)
        w = writes(e)
        mv = moved(e) if e.get("k") in ("Call", "Var", "Construct") and not (w) else None
        if mv and e.get("k") == "Call" and short(e) == "move":
            mv = None
        if w == "version":
            b = e.get("b") if e.get("k") == "Bin" else None
            return (mod | {w}, ovf, b is not None and is_to(b), ret)
        if w:
            return (mod | {w}, ovf, ver, ret)
        if mv:
            return (mod | {mv[0]}, ovf, ver, ret)
        return s
    F = flow.Flow(B, (frozenset(), False, False, None), step)
    W = model.loc(f)
    bad = [(s, B.exit) for s in F.states(B.exit) if s[3] in (0, False) and s[0]]
    ck.ob("refusal-leaves-map", f["n"], not bad, W, "a conversion that reports failure must leave the map as it was" +
          ("; modified: %s, path %s" % (sorted(bad[0][0][0]), F.trace(B.exit, bad[0][0])) if bad else ""))
    bad = [s for s in F.states(B.exit) if s[3] not in (0, 1, True, False)]
    ck.ob("result-known", f["n"], not bad, W, "the conversion reports success or failure explicitly")
    # success: either nothing changed (already in that format) or both map and version were set
    bad = [s for s in F.states(B.exit) if s[3] in (1, True) and s[0] and not ({"bsp", "version"} <= s[0] and s[2])]
    ck.ob("success-complete", f["n"], not bad, W, "a conversion that reports success must have replaced the map and recorded the requested version")
    ok = [s for s in F.states(B.exit) if s[3] in (1, True) and {"bsp", "version"} <= s[0]]
    ck.ob("success-possible", f["n"], bool(ok), W, "conversions succeed on some path")
    # untouched success only when version == to_version
    same = [s for s in F.states(B.exit) if s[3] in (1, True) and not s[0]]
    if same:
        eqs = [n for n in B.nodes if n.kind == "br" and equal_versions(n.ast, rooted, is_to)]

        def step2(n, s, lab):
            if n.kind == "br" and n in eqs and lab is not None:
                eq = strip(n.ast)["op"] == "=="
                if (lab is True) == eq:
                    s = (s[0], True)
                    return s
            r = step(n, s[0], lab)
            return None if r is None else (r, s[1])
        F2 = flow.Flow(B, ((frozenset(), False, False, None), False), step2)
        bad = [s for s in F2.states(B.exit) if s[0][3] in (1, True) and not s[0][0] and not s[1]]
        ck.ob("noop-only-if-same", f["n"], not bad, W, "success without a conversion only when the map already has the requested version")
    bad = [s for s in F.states(B.excexit) if s[1]]
    ck.ob("overflow-caught", f["n"], not bad, W, "an overflow found while converting must be reported as failure, not escape" +
          ("; path " + F.trace(B.excexit, bad[0]) if bad else ""))
    ck.ob("overflow-sites", f["n"], len({n.i for n in sites}) >= 1, W, "%d conversion calls that can find an overflow" % len({n.i for n in sites}))
    # conversions must not modify their source
    for k, g in P.fns.items():
        ps = [p["t"] for p in g["params"]]
        if len(ps) == 2 and "mbsp_t" in ps[0] and ps[1].startswith("const bspversion_t") and g["ret"] in P.recs:
            w = [] if ps[0].startswith("const ") else [x for x in param_writes(P, g)]
            ck.ob("source-kept", g["n"] + "->" + g["ret"], not w, model.loc(g), "a conversion that may still fail must not change its source" + (" (writes %s)" % w[0] if w else ""))
    ck.count("states_explored", F.visited)


def param_writes(P, g):
    """writes of g (calls followed) below its first parameter"""
    A = par.Par(P, skip=lambda h: h["n"].startswith(("logging::", "fmt::")) or h["n"] in ("Error", "VError"), moves=True)
    A.summary(g)
    A.fix()
    return ["%s at %s" % (".".join(str(z) for z in l[1]), site) for l, (site, lk, kind) in sorted(A.summary(g).items(), key=str) if l[0] == ("p", 0) and l[1]]


def equal_versions(e, rooted, is_to):
    e = strip(e)
    if e is None or e.get("k") != "Bin" or e["op"] not in ("==", "!="):
        return False
    for a, b in ((e["a"], e["b"]), (e["b"], e["a"])):
        if rooted(a) == ("version",) and is_to(b):
            return True
    return False


def core(e, D, d=0):
    """(expression, polarity) behind negations, comparisons with a truth value and named conditions"""
    e = strip(e)
    if e is None or d > 8:
        return None, True
    if e.get("k") == "Un" and e["op"] == "!":
        x, p = core(e["e"], D, d + 1)
        return x, not p
    if e.get("k") == "Bin" and e["op"] in ("==", "!="):
        for a, b in ((e["a"], e["b"]), (e["b"], e["a"])):
            v = cfg.cval(b)
            if v in (0, 1) or strip(b).get("k") in ("Null", "Bool"):
                x, p = core(a, D, d + 1)
                return x, p == ((e["op"] == "==") == bool(v))
    if e.get("k") == "Ref" and e.get("id") in D and D[e["id"]] is not None:
        return core(D[e["id"]], D, d + 1)
    if e.get("k") == "Construct" and len(e.get("args", ())) == 1:
        return core(e["args"][0], D, d + 1)
    return e, True


def output(ck, P):
    fs = [f for f in P.named("WriteBSPFile") if f.get("body") and f["f"].startswith("qbsp/")]
    if not fs:
        fs = [f for f in P.fns.values() if f["f"].startswith("qbsp/") and any(x.get("k") == "Call" and x.get("n") == "ConvertBSPFormat" for x in model.fn_nodes(f))]
    n = 0
    for f in fs:
        if not any(effects.reach(P, [f["key"]]) & {g["key"]} for g in P.named("ConvertBSPFormat")):
            continue

        def pol(fn, c, d):
            return fn["f"].startswith("qbsp/") and fn["n"] not in ("ConvertBSPFormat",) or fn.get("lambda")
        B = cfg.Builder(P, inline=pol, max_depth=3).build(f)
        D = flow.defs(B)

        def mem(e, d=0):
            """chain of members, following named values"""
            e = strip(e)
            if e is None or d > 10:
                return ()
            if e.get("k") == "Ref" and e.get("id") in D and D[e["id"]] is not None:
                return mem(D[e["id"]], d + 1)
            if e.get("k") == "Member":
                return mem(e.get("base"), d + 1) + (e["f"],)
            if e.get("k") == "Un" and e["op"] in ("*", "&"):
                return mem(e["e"], d + 1)
            if e.get("k") == "Call" and operands(e):
                return mem(operands(e)[0], d + 1) + ((short(e),) if short(e) not in ("operator->", "operator*", "value") else ())
            if e.get("k") == "Construct" and len(e.get("args", ())) == 1:
                return mem(e["args"][0], d + 1)
            return ()

        def target(call):
            m = mem(call["args"][1])
            return "extended" if m and m[-1] == "extended_limits" else "target" if m and m[-1] == "target_version" else "?" + ".".join(m)
        calls = {}
        # state: conv (none/ok/failed), which, allow (None/True/False), exists (None/True/False)

        def step(nd, s, lab):
            conv, which, allow, ex, pend = s
            e = nd.ast
            if e is None:
                return s
            if nd.kind == "br" and lab in (True, False):
                x, p = core(e, D)
                v = (lab == p)
                if x is not None and x.get("k") == "Call" and short(x) == "ConvertBSPFormat" and pend:
                    return ("ok" if v else "failed", which, allow, ex, False)
                m = mem(x) if x is not None else ()
                if m and m[-1] == "allow_upgrade":
                    return None if allow is not None and allow != v else (conv, which, v, ex, pend)
                if m and m[-1] == "extended_limits":
                    return None if ex is not None and ex != v else (conv, which, allow, v, pend)
                return s
            if nd.kind != "ev" or lab == "exc":
                return s
            if e.get("k") == "Call" and short(e) == "ConvertBSPFormat":
                t = target(e)
                calls.setdefault((nd.i), (nd, t, set()))[2].add(s)
                return ("pending", t, allow, ex, True)
            if e.get("k") == "Call" and short(e) == "assert_" and e.get("args"):
                x, p = core(e["args"][0], D)
                if x is not None and x.get("k") == "Call" and short(x) == "ConvertBSPFormat" and pend and p:
                    return ("ok", which, allow, ex, False)
            return s
        F = flow.Flow(B, ("none", "", None, None, False), step)
        for nd, t, ss in calls.values():
            n += 1
            if t == "target":
                bad = [s for s in ss if s[0] not in ("none",)]
                ck.ob("first-attempt", f["n"], not bad, nd.where(), "the requested format is tried first, once")
            elif t == "extended":
                bad = [s for s in ss if s[0] != "failed" or s[2] is not True or s[3] is not True]
                ck.ob("upgrade", f["n"], not bad, nd.where(), "switching to the extended format only after the conversion failed, when one exists and upgrading is allowed" +
                      ("; path " + F.trace(nd, bad[0]) if bad else ""))
            else:
                ck.ob("upgrade", f["n"], False, nd.where(), "conversion to neither the requested nor the extended format (%s)" % t)
        for nd in B.nodes:
            e = nd.ast
            if nd.kind == "ev" and e and e.get("k") == "Call" and short(e) == "WriteBSPFile" and nd.i in F.at:
                bad = [s for s in F.at[nd.i] if s[0] != "ok"]
                ck.ob("written-after-success", f["n"], not bad, nd.where(), "the map is written only after a successful conversion" +
                      ("; path " + F.trace(nd, bad[0]) if bad else ""))
        bad = [s for s in F.states(B.exit) if s[0] != "ok"]
        ck.ob("failure-ends", f["n"], not bad, model.loc(f), "a map that cannot be converted ends the compiler with an error" +
              ("; path " + F.trace(B.exit, bad[0]) if bad else ""))
        ck.count("states_explored", F.visited)
    ck.floor("written-after-success", 1)
    ck.floor("upgrade", 1)


def table(ck, P):
    V = bspver.versions(P)
    for n, d in sorted(V.items()):
        x = d.get("extended")
        if not x:
            continue
        e = V.get(x)
        ok = e is not None and e["game"] == d["game"] and x != n and not e.get("extended")
        ck.ob("table", n, ok, "%s:%d" % (d["f"], d["l"]), "the extended format (%s) belongs to the same game and is final" % x)
        if e and e["lumps"] and d["lumps"]:
            for i, (a, b) in enumerate(zip(d["lumps"], e["lumps"])):
                ck.ob("table", "%s[%d]" % (n, i), (b[1] or 0) >= (a[1] or 0) and a[0] == b[0], "%s:%d" % (e["f"], e["l"]), "records of the extended format hold at least as much (%s: %s vs %s)" % (a[0], a[1], b[1]))
    ck.floor("table", 3)


def run(ck):
    P = ck.load()
    casts(ck, P)
    fields(ck, P)
    convert(ck, P)
    output(ck, P)
    table(ck, P)
