"""C03: conversion between the generic map and every on-disk format is complete and inverse."""
import model, prov, pwa
from model import strip

RULE = ("Provenance dataflow (field- and element-sensitive, through inlined helpers) over every record conversion "
        "constructor/operator pair and every whole-map conversion. Each on-disk field must come from exactly one generic field and "
        "go back to that same field with no operation in between other than the range-checked cast, a same-width sign change, or "
        "(bounds only) outward rounding; no generic field may be read twice; a generic field the format cannot hold must get a "
        "constant or default. The one arithmetic pair (clip node children) is decided by exact piecewise-affine interpretation of "
        "both functions over their whole integer domain: each must undo the other. At map level every member of the on-disk map "
        "must be filled from one generic member, that member must be filled back from it, and element copies must visit every element.")

OKL = {"sign", "memcpy"}


def bad_labels(ls, name, ctor):
    out = []
    for l in ls:
        if l.startswith(("into", "prim:numeric_cast")) or l in OKL:
            continue
        if ctor and l == "call:floor" and name == "mins" or ctor and l == "call:ceil" and name == "maxs":
            continue
        out.append(l)
    return out


def noconst(srcs):
    return [(s, l) for s, l in srcs if s[0] != "#"]


def idx(p):
    return [x for x in p if x.startswith("[")]


def elem_ok(src, labels):
    """literal destination element k must come from source element k"""
    for l in labels:
        if l.startswith("into"):
            d = [x for x in l[4:].replace("][", "].[").split(".") if x.startswith("[") or "[" in x]
            d = ["[" + x.split("[")[1] for x in d]
            s = idx(src)
            for a in d:
                if a != "[*]" and s and all(b not in ("[*]", a) for b in s):
                    return False
        if l.startswith("reindex"):
            return False
    return True


def record_pairs(P):
    for f in P.fns.values():
        c = f.get("cls")
        if not c or f["n"].split("::")[-1] != c.split("::")[-1] or len(f["params"]) != 1:
            continue
        g = f["params"][0]["t"].replace("const ", "").replace(" &&", "").replace(" &", "")
        if g == c or g not in P.recs:
            continue
        ops = [h for h in P.fns.values() if h.get("cls") == c and "::operator " in h["n"] and not h["params"] and h["ret"] == g]
        if len(ops) == 1:
            yield c, g, f, ops[0]


def run(ck):
    P = ck.load("common")
    pairs = sorted(record_pairs(P), key=lambda x: x[0])
    for X, G, cf, of in pairs:
        R, GR = P.rec(X), P.rec(G)
        pc, po = prov.Prov(P, cf), prov.Prov(P, of)
        where_c, where_o = model.loc(cf), model.loc(of)
        # unary integer helpers (clip node children): prove the pair inverse exactly, then treat them as identity
        hc = helpers(P, cf)
        ho = helpers(P, of)
        ident = set()
        if len(hc) == 1 and len(ho) == 1:
            d, u = hc[0], ho[0]
            try:
                dp, up = pwa.PWA(P, d).run(), pwa.PWA(P, u).run()
                bad = pwa.check_inverse(dp, up, None, None)
                ck.ob("inverse-arithmetic", "%s/%s" % (d["n"], u["n"]), not bad, model.loc(d),
                      "the narrowing and widening functions must undo each other on their whole domain: " + ("; ".join(bad[:4]) or "%d and %d affine pieces" % (len(dp), len(up))))
                ident = {d["n"], u["n"]}
            except pwa.Unknown as ex:
                ck.ob("inverse-arithmetic", "%s/%s" % (d["n"], u["n"]), False, model.loc(d), "not decidable as an affine map: %s" % ex)
                ident = {d["n"], u["n"]}
        if ident:
            pc = prov.Prov(P, cf, primitives=("numeric_cast",) + tuple(ident))
            po = prov.Prov(P, of, primitives=("numeric_cast",) + tuple(ident))

        def lab_ok(ls, name, ctor):
            return bad_labels([l for l in ls if not (l.startswith("prim:") and l[5:] in ident)], name, ctor)

        used = {}
        for fd in R["fields"]:
            n = fd["n"]
            key = "%s.%s" % (X, n)
            src = pc.query(("this", n))
            real = noconst(src)
            paths = {s if not s[-1].startswith("[") and s[-1] != "v" or len(s) <= 2 else s for s, l in real}
            # drop element components: distinct elements of one member are one source
            members = {tuple(x for x in s if not x.startswith("[") and x != "v" and x != "_M_elems") for s in paths}
            ok = len(members) == 1 and len(real) == len(src) and bool(real)
            ck.ob("narrow.source", key, ok, where_c, "field must be taken from exactly one member of %s (found %s)" % (
                G, ", ".join(sorted(prov.fmtpath(s) for s, l in src)) or "nothing"))
            if not ok:
                continue
            mem = list(members)[0]
            if mem[0] in ("this",):
                ck.ob("narrow.source", key, False, where_c, "field is initialised from itself")
                continue
            for s, ls in real:
                b = lab_ok(ls, n, True)
                ck.ob("narrow.identity", key + "<-" + prov.fmtpath(s), not b and elem_ok(s, ls), where_c,
                      "value must reach the field unchanged (operations found: %s)" % ", ".join(b or sorted(ls)))
            used.setdefault(mem[1:], []).append(n)
            same = [f2["n"] for f2 in GR["fields"] if f2["n"] == n]
            if same:
                ck.ob("narrow.name", key, mem[1] == n, where_c, "a field both records have must keep its meaning (taken from %s)" % prov.fmtpath(mem))
            # array extent: a literal single element is fine (q2 headnode[0])
            elems = {tuple(idx(s)) for s, l in real}
            # back
            gpaths = [mem[1:]]
            if all(len(e) == 1 and e[0] != "[*]" for e in elems) and len(elems) == 1 and not any(l.startswith("into") for s, ls in real for l in ls):
                gpaths = [mem[1:] + list(elems)[0]]
            for gp in gpaths:
                back = po.query(("ret",) + gp)
                rb = noconst(back)
                bm = {tuple(x for x in s if not x.startswith("[") and x not in ("v", "_M_elems")) for s, l in rb}
                ok = bm == {("this", n)} and len(rb) == len(back)
                ck.ob("widen.source", key, ok, where_o, "%s must be restored from %s alone (found %s)" % (
                    ".".join(gp), n, ", ".join(sorted(prov.fmtpath(s) for s, l in back)) or "nothing"))
                for s, ls in rb:
                    b = lab_ok(ls, n, False)
                    ck.ob("widen.identity", key + "->" + ".".join(gp), not b and elem_ok(s, ls), where_o,
                          "value must come back unchanged (operations found: %s)" % ", ".join(b or sorted(ls)))
                # whole-array copies by literal element must cover every element
                lits = {i for s, ls in rb for i in idx(s)}
                if rb and all(i != "[*]" for i in lits) and len(lits) > 1:
                    m = [x for x in R["fields"] if x["n"] == n][0]
                    cnt = count_of(m["t"])
                    ck.ob("widen.elements", key, cnt is None or len(lits) == cnt, where_o, "all %s elements must be copied (%d are)" % (cnt, len(lits)))
            lits = {i for s, ls in real for i in idx(s)}
            if all(i != "[*]" for i in lits) and len(lits) > 1:
                cnt = count_of(fd["t"])
                ck.ob("narrow.elements", key, cnt is None or len(lits) == cnt, where_c, "all %s elements must be copied (%d are)" % (cnt, len(lits)))
        for mem, ns in used.items():
            ck.ob("narrow.injective", "%s:%s" % (X, ".".join(mem)), len(ns) == 1, where_c, "one generic member feeds several fields: %s" % ", ".join(ns))
        # generic members with no counterpart: constants/defaults only
        tops = {m[0] for m in used}
        for fd in GR["fields"]:
            if fd["n"] in tops:
                continue
            src = noconst(po.query(("ret", fd["n"])))
            ck.ob("widen.unrepresented", "%s.%s" % (G, fd["n"]) + "@" + X, not src, where_o,
                  "a member %s cannot store must be given a constant (found %s)" % (X, ", ".join(prov.fmtpath(s) for s, l in src)))
        ck.count("record_pairs")
    ck.floor("narrow.source", 50)
    ck.floor("widen.source", 50)
    ck.floor("inverse-arithmetic", 1)
    maps(ck, P)


def helpers(P, fn):
    """Unary integer->integer functions with arithmetic reached from a conversion function."""
    out = []
    seen = set()
    todo = [fn]
    while todo:
        f = todo.pop()
        for x in model.fn_nodes(f):
            if x.get("k") == "Call" and x.get("fn") in P.fns and x["fn"] not in seen:
                seen.add(x["fn"])
                g = P.fns[x["fn"]]
                if g["n"].startswith(("numeric_cast", "logging::", "fmt::")) or "operator" in g["n"]:
                    continue
                if len(g["params"]) == 1 and pwa.type_range(g["params"][0]["t"]) and pwa.type_range(g["ret"]):
                    out.append(g)
                else:
                    todo.append(g)
    return out


def count_of(t):
    import re
    m = re.match(r"^std::array<.*, (\d+)>$", t) or re.match(r"^qvec<.*, (\d+)>$", t) or re.search(r"\[(\d+)\]$", t)
    return int(m.group(1)) if m else None


def top(s):
    """member path without element components"""
    return tuple(x for x in s[1:] if not x.startswith("["))


def maps(ck, P):
    G = P.rec("mbsp_t")
    to, back = {}, {}
    for f in P.fns.values():
        ps = [p["t"].replace("const ", "").replace(" &", "") for p in f["params"]]
        if len(ps) == 2 and ps[1] == "mbsp_t" and ps[0] in P.recs and f["ret"] == "void":
            to[ps[0]] = f
        elif len(ps) == 2 and ps[0] == "mbsp_t" and f["ret"] in P.recs and ps[1].startswith("bspversion_t"):
            back[f["ret"]] = f
    inl = lambda g, c, d: not g.get("cls")
    for X in sorted(set(to) | set(back)):
        if X not in to or X not in back:
            raise model.AnalysisBroken("map conversion of %s found in one direction only" % X)
        ft, fb = to[X], back[X]
        pt, pb = prov.Prov(P, ft, inline=inl), prov.Prov(P, fb, inline=inl)
        groot = "v:" + pt.B.frame0.map[ft["params"][1]["id"]]
        fwd = {}  # X member -> set of generic paths (writing)
        for fd in P.rec(X)["fields"]:
            src = pb.query(("ret", fd["n"]))
            ms = {top(s) for s, l in src if s[0] != "#"}
            ck.ob("map.write-source", "%s.%s" % (X, fd["n"]), len(ms) == 1, model.loc(fb), "lump must be filled from exactly one generic member (found %s)" % sorted(ms))
            for s, l in src:
                b = [x for x in l if not x.startswith(("into", "prim:numeric_cast"))]
                ck.ob("map.write-identity", "%s.%s" % (X, fd["n"]), not b, model.loc(fb), "elements must be copied unchanged or by their record conversion (%s)" % ", ".join(b))
            if len(ms) == 1:
                m = list(ms)[0]
                src2 = pt.query((groot,) + m)
                ms2 = {top(s) for s, l in src2 if s[0] != "#"}
                ck.ob("map.read-source", "%s.%s" % (X, fd["n"]), ms2 == {(fd["n"],)}, model.loc(ft), "%s must be restored from the %s lump alone (found %s)" % (".".join(m), fd["n"], sorted(ms2)))
                for s, l in src2:
                    b = [x for x in l if not x.startswith(("into", "prim:numeric_cast"))]
                    ck.ob("map.read-identity", "%s.%s" % (X, fd["n"]), not b, model.loc(ft), "elements must be copied unchanged or by their record conversion (%s)" % ", ".join(b))
                fwd.setdefault(m, []).append(fd["n"])
        for m, ns in fwd.items():
            ck.ob("map.injective", "%s:%s" % (X, ".".join(m)), len(ns) == 1, model.loc(fb), "one generic member fills several lumps: %s" % ", ".join(ns))
        for pv in (pt, pb):
            full_copies(ck, pv)
        always(ck, P, pt, groot[2:], sorted({m[0] for m in fwd}), X, ft)
        dst = returned(pb)
        if dst is not None:
            always(ck, P, pb, dst, [fd["n"] for fd in P.rec(X)["fields"]], X, fb)
        alternatives(ck, P, pb, X, fb)
        ck.count("map_formats")
    provenance(ck, P)
    ck.floor("map.write-source", 5 * 13)
    ck.floor("map.always", 5 * 13)
    ck.floor("map.read-source", 5 * 13)


def full_copies(ck, pv):
    """Every element-wise append happens on every iteration of a loop over the whole source."""
    import loops
    for n, e in pv.calls:
        m = e.get("n", "").split("::")[-1]
        if m in ("push_back", "emplace_back") and e.get("obj") is not None:
            ok, why = loops.covers(pv.B, n)
            ck.ob("map.every-element", "%s:%s" % (n.fn["n"], m), ok, n.where(), why)


def returned(pv):
    """the local the function returns"""
    for n in pv.B.nodes:
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Return" and e.get("e") is not None:
            x = strip(e["e"])
            while x.get("k") == "Construct" and len(x.get("args", ())) == 1:
                x = strip(x["args"][0])
            if x.get("k") == "Call" and x.get("n") == "std::move":
                x = strip(x["args"][0])
            if x.get("k") == "Ref" and "id" in x:
                return x["id"]
    out = {n.ast["id"] for n in pv.B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and n.ast.get("t") == pv.B.fn["ret"]} if hasattr(pv.B, "fn") else set()
    return out.pop() if len(out) == 1 else None


def emptyedge(e):
    """label on which e says that something is empty"""
    e = strip(e)
    pol = True
    while e is not None and (e.get("k") == "Un" and e["op"] == "!" or e.get("k") == "Cast"):
        if e["k"] == "Un":
            pol = not pol
        e = strip(e["e"])
    if e is None:
        return None
    if e.get("k") == "Call" and e.get("obj") is not None:
        m = e.get("n", "").split("::")[-1]
        return pol if m == "empty" else (not pol) if m == "size" else None
    if e.get("k") == "Bin":
        import cfg
        a, c = strip(e["a"]), cfg.cval(e["b"])
        if a.get("k") == "Call" and a.get("n", "").split("::")[-1] == "size":
            r = {("==", 0): True, ("!=", 0): False, (">", 0): False, ("<", 1): True, (">=", 1): False}.get((e["op"], c))
            return None if r is None else r == pol
    return None


def always(ck, P, pv, root, members, X, f):
    """every member of the result is filled on every path, unless its source is empty"""
    import cfg
    B = pv.B
    reach = cfg.reachable(B)
    for m in members:
        hits = set()
        for n in B.nodes:
            if n.i in reach and n.kind == "ev" and n.ast is not None and any(
                    x.get("k") == "Member" and x.get("f") == m and strip(x.get("base") or {}).get("k") == "Ref" and strip(x["base"]).get("id") == root for x in model.walk(n.ast)):
                hits.add(n.i)
        if not hits:
            continue
        seen, todo, bad = set(), [B.entry.i], False
        while todo:
            i = todo.pop()
            if i in seen or i in hits or i not in reach:
                continue
            seen.add(i)
            n = B.nodes[i]
            if n is B.exit:
                bad = True
                break
            e = emptyedge(n.ast) if n.kind == "br" and n.ast is not None else None
            for s, l in n.succ:
                if l in ("throw", "noreturn", "exc") or isinstance(l, tuple):
                    continue
                if e is not None and (l is True) == e:
                    continue
                todo.append(s)
        ck.ob("map.always", "%s:%s.%s" % (f["n"], X, m), not bad, model.loc(f), "%s is filled whatever the rest of the map looks like" % m)


def alternatives(ck, P, pv, X, f):
    """Hexen II maps get the Hexen II model record, all others the Quake one"""
    import bspver, c02
    from vsets import VSets
    V = {k: v for k, v in bspver.versions(P).items() if v["lumps"]}
    G = bspver.games(P)
    terms, derived = c02.version_terms(V, G)
    per = {}
    for v in sorted(V):
        if V[v]["version"] is not None:
            continue
        VS = VSets(pv.B, terms, start={"version": frozenset([v])}, derived=derived)
        got = set()
        for n in pv.B.nodes:
            e = n.ast
            if n.i in VS.at and n.kind == "ev" and e is not None and e.get("k") == "Call" and e.get("n", "").split("::")[-1].split("<")[0] == "emplace":
                t = e.get("t", "")
                got.add("h2" if "dmodelh2" in t else "q1" if "dmodelq1" in t else t)
        got &= {"h2", "q1"}
        if got:
            per[v] = got
    # the test for the game may be written in a way the value sets do not follow: then both records are seen for every version
    blind = all(len(g) == 2 for g in per.values())
    for v, got in sorted(per.items()):
        want = "h2" if "h2" in v else "q1"
        if not blind:
            ck.ob("map.model-record", "%s:%s" % (X, v), got == {want}, model.loc(f), "%s is given %s model records" % (v, sorted(got)))


def provenance(ck, P):
    """the version a map was loaded as is remembered before it is overwritten"""
    import cfg
    f = P.fn("ConvertBSPFormat")
    B = cfg.Builder(P, inline=lambda g, c, d: False, max_depth=1).build(f)
    reach = cfg.reachable(B)
    ver, load = [], []
    for n in B.nodes:
        e = n.ast
        if n.i in reach and n.kind == "ev" and e is not None and e.get("k") == "Bin" and e["op"] == "=":
            d = strip(e["a"])
            if d.get("k") == "Member" and d.get("f") == "version" and d.get("cls") == "bspdata_t":
                ver.append(n)
            elif d.get("k") == "Member" and d.get("f") == "loadversion":
                load.append((n, e["b"], d.get("cls")))
    import loops
    after = set()
    for n in ver:
        after |= loops.reach_from(B, [s for s, l in n.succ])
    for c in ("bspdata_t", "mbsp_t"):
        g = [(n, s) for n, s, k in load if k == c]
        ok = bool(g)
        for n, s in g:
            direct = any(x.get("k") == "Member" and x.get("f") == "version" and x.get("cls") == "bspdata_t" for x in model.walk(s))
            if direct and n.i in after:
                ok = False
        ck.ob("map.loaded-as", c, ok, model.loc(f), "loadversion is the version before the conversion")
