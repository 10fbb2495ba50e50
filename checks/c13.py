"""C13: extended surface flags reach the light compiler."""
import cfg, flow, model
from flow import key, short, operands
from model import strip, walk, fn_nodes
import c04

RULE = ("For every surface property, the compiler's sidecar writer is explored over all its paths for an arbitrary surface whose property differs from the default: "
        "every path to the end writes the value under its key into the object filed under the surface's own output number. The loader is explored for an arbitrary "
        "entry carrying that key: it stores the value, read with the property's type, into the same property of the entry's own index, and only after the index was "
        "compared with the number of surfaces. A stale sidecar never survives; the comparison that decides whether a surface needs an entry covers every property; "
        "and every property the light compiler consults is carried.")

REC = "surfflags_t"
EXT = "extended_texinfo_flags"
NATIVE = "native"


def named(e, D, d=0):
    """follow named values, casts, optional access and references to the expression they stand for"""
    e = strip(e)
    while e is not None and d < 12:
        d += 1
        k = e.get("k")
        if k == "Ref" and D.get(e.get("id")) is not None:
            e = strip(D[e["id"]])
        elif k == "Construct" and len(e.get("args", ())) == 1:
            e = strip(e["args"][0])
        elif k == "Init" and len(e.get("c", ())) == 1:
            e = strip(e["c"][0])
        elif k == "Call" and short(e) == "value" and e.get("obj") is not None and not e.get("args"):
            e = strip(e["obj"])
        elif k == "Call" and e.get("op") == "*" and len(e.get("args", ())) == 1:
            e = strip(e["args"][0])
        elif k == "Un" and e["op"] in ("*", "&"):
            e = strip(e["e"])
        elif k == "Call" and short(e) in ("move", "forward", "as_const") and len(e.get("args", ())) == 1:
            e = strip(e["args"][0])
        else:
            break
    return e


def lit(e, D):
    e = named(e, D)
    if e is not None and e.get("k") == "Str":
        return e.get("v")
    return None


def member(e, D, fields):
    """name of the surface property an expression denotes"""
    e = named(e, D)
    if e is not None and e.get("k") == "Member" and e["f"] in fields and e.get("cls", REC) == REC:
        b = e.get("base")
        t = (b or {}).get("t", "").replace("const ", "").replace(" &", "").replace(" *", "").strip()
        if b is None or t == REC:
            return e["f"]
    return None


def json_slot(e, D):
    """(object, key) of j[key] / j.at(key)"""
    e = named(e, D)
    if e is not None and e.get("k") == "Call" and (e.get("op") == "[]" or short(e) in ("at", "operator[]")):
        o = operands(e)
        if len(o) == 2 and "basic_json" in (strip(o[0]).get("t", "") + e.get("n", "") + e.get("t", "")):
            return o[0], o[1]
    return None


def assignment(e):
    if e.get("k") == "Bin" and e["op"] == "=":
        return e["a"], e["b"]
    if e.get("k") == "Call" and e.get("op") == "=":
        o = operands(e)
        if len(o) == 2:
            return o
    return None


def insertion(e, D):
    """(object, key, value) of a store into a json object, under any key"""
    a = assignment(e)
    if a is not None:
        s = json_slot(a[0], D)
        if s is not None:
            return s[0], s[1], a[1]
        return None
    if e.get("k") != "Call":
        return None
    nm = short(e)
    o = operands(e)
    if nm == "swap" and len(o) == 2:
        for x, y in ((o[0], o[1]), (o[1], o[0])):
            s = json_slot(x, D)
            if s is not None:
                return s[0], s[1], y
    if nm in ("emplace", "try_emplace", "insert_or_assign") and len(o) == 3 and "basic_json" in strip(o[0]).get("t", ""):
        return o[0], o[1], o[2]
    return None


RANK = {"bool": (0, 1), "char": (0, 8), "signed char": (0, 8), "unsigned char": (0, 8), "uint8_t": (0, 8), "int8_t": (0, 8), "short": (0, 16), "unsigned short": (0, 16),
        "int16_t": (0, 16), "uint16_t": (0, 16), "int": (0, 32), "int32_t": (0, 32), "unsigned int": (0, 32), "uint32_t": (0, 32),
        "long": (0, 64), "unsigned long": (0, 64), "long long": (0, 64), "unsigned long long": (0, 64), "size_t": (0, 64), "float": (1, 32), "double": (1, 64)}


def cut(e, D, least=64, d=0):
    """the type a value is narrowed to on its way through named values, or None"""
    if e is None or d > 25:
        return None
    k = e.get("k")
    if k == "Cast":
        a, b = (x.replace("const ", "").replace("std::", "").strip() for x in (e.get("from", ""), e.get("t", "")))
        if a in RANK and b in RANK and (RANK[a][0] > RANK[b][0] or RANK[a][0] == RANK[b][0] and RANK[a][1] > RANK[b][1]) and RANK[b][1] < least and (b != "bool"):
            return b
        return cut(e["e"], D, least, d + 1)
    if k == "Ref" and D.get(e.get("id")) is not None:
        return cut(D[e["id"]], D, least, d + 1)
    for c in [e.get("e")] if k in ("Un", "Paren") else e.get("args") or () if k == "Construct" else e.get("c") or () if k == "Init" else ():
        if c is not None and len(e.get("args") or e.get("c") or [0]) == 1:
            r = cut(c, D, least, d + 1)
            if r:
                return r
    return None


def default_of(P, rec, fname):
    f = next(x for x in rec["fields"] if x["n"] == fname)
    i = f.get("init")
    if i is None:
        return 0
    v = cfg.cval(i)
    if v is None:
        i = strip(i)
        while i is not None and i.get("k") in ("Init", "Construct") and len(i.get("c", i.get("args", ()))) == 1:
            i = strip((i.get("c") or i.get("args"))[0])
        if i is not None and i.get("k") in ("Float", "Int"):
            v = float(i["v"])
        elif i is not None and i.get("k") in ("Init", "Construct") and not i.get("c", i.get("args", ())):
            v = 0
    return v


def num(e):
    v = cfg.cval(e)
    if v is not None:
        return v
    e = strip(e)
    if e is not None and e.get("k") in ("Float", "Int"):
        return float(e["v"])
    return None


def differs(e, D, m, fields, dflt, opt):
    """truth of a condition when property m differs from its default / equals it: (True if it means 'differs', False if 'is default', None)"""
    e = strip(e)
    if e is None:
        return None
    if e.get("k") == "Un" and e["op"] == "!":
        r = differs(e["e"], D, m, fields, dflt, opt)
        return None if r is None else not r
    if e.get("k") == "Ref" and D.get(e.get("id")) is not None and e.get("t", "").replace("const ", "") == "bool":
        if member(e, D, fields) != m:
            return differs(D[e["id"]], D, m, fields, dflt, opt)
    if e.get("k") == "Call" and short(e) in ("has_value", "operator bool") and e.get("obj") is not None and opt:
        return True if member(e["obj"], D, fields) == m else None
    if e.get("k") == "Call" and short(e) in ("emptyExact",) and len(e.get("args", ())) == 1 and not opt:
        return False if member(e["args"][0], D, fields) == m and dflt == 0 else None
    if e.get("k") in ("Bin", "Call") and e.get("op") in ("==", "!="):
        o = [e["a"], e["b"]] if e["k"] == "Bin" else operands(e)
        if len(o) == 2:
            for a, b in ((o[0], o[1]), (o[1], o[0])):
                if member(a, D, fields) == m:
                    bb = named(b, D)
                    same = False
                    if not opt and num(bb) is not None and dflt is not None and float(num(bb)) == float(dflt):
                        same = True
                    if bb is not None and bb.get("k") in ("Init", "Construct") and not bb.get("c", bb.get("args", ())) and dflt == 0:
                        same = True
                    if opt and bb is not None and "nullopt" in (bb.get("n", "") + bb.get("t", "")):
                        same = True
                    if bb is not None and bb.get("k") == "Member" and bb.get("f") == m:
                        r = named(bb.get("base"), D) if bb.get("base") else None
                        if r is not None and r.get("k") in ("Construct", "Init") and not r.get("args"):
                            same = True
                    if same:
                        return e["op"] == "!="
        return None
    if member(e, D, fields) == m:
        k = e.get("k")
        if k == "Call" and e.get("op") == "*" or k == "Call" and short(e) == "value":
            return None  # the value of an optional, not its presence
        if opt and e.get("k") == "Un" and e["op"] == "*":
            return None
        return True if dflt == 0 or opt else None
    return None


def calls_needs_write(P, e):
    """any_of-like search for a surface that needs an entry"""
    e = strip(e)
    if e is not None and e.get("k") == "Call" and short(e) in ("any_of", "operator()", "__any_of_fn"):
        for x in walk(e):
            if x.get("k") == "Lambda":
                for fk in x.get("fns") or [x.get("fn")]:
                    g = P.fns.get(fk)
                    if g is None:
                        continue
                    r = [y for y in fn_nodes(g) if y.get("k") == "Return"]
                    if len(r) == 1 and strip(r[0].get("e")) is not None and strip(r[0]["e"]).get("k") == "Call" and short(strip(r[0]["e"])) == "needs_write":
                        return True
    return False


def spare(P, e, pol):
    """every element for which the condition has this outcome needs no entry: it has no output number or needs_write is false"""
    e = strip(e)
    if e is None:
        return False
    if e.get("k") == "Un" and e["op"] == "!":
        return spare(P, e["e"], not pol)
    if e.get("k") == "Bin" and e["op"] in ("||", "&&"):
        both = (e["op"] == "||") == pol
        r = [spare(P, e["a"], pol), spare(P, e["b"], pol)]
        return all(r) if both else any(r)
    if e.get("k") == "Call" and short(e) == "needs_write":
        return not pol
    if e.get("k") == "Call" and short(e) in ("has_value", "operator bool") and any(x.get("k") == "Member" and x["f"] == "outputnum" for x in walk(e)):
        return not pol
    if e.get("k") == "Call" and e.get("op") in ("==", "!=") and sum(x.get("k") == "Member" and x["f"] == "outputnum" for x in walk(e)) == 2:
        return (e["op"] == "==") == pol  # two entries with the same number
    return False


def dropping(ck, P, f, B, D):
    """surfaces are taken out of the list that is written only when they need no entry"""
    for n in B.nodes:
        e = n.ast
        if n.kind != "ev" or e is None or e.get("k") != "Call":
            continue
        o = operands(e)
        if not o or not any("texinfo_t" in (strip(x) or {}).get("t", "") for x in o[:2]):
            continue
        nm = short(e)
        if nm in ("erase_if", "remove_if", "copy_if", "partition", "stable_partition", "unique", "remove", "erase", "pop_back", "clear", "resize", "filter"):
            preds = [g for x in o for y in walk(x) if y.get("k") == "Lambda" for k in (y.get("fns") or [y.get("fn")]) for g in [P.fns.get(k)] if g]
            if nm in ("erase", "resize") and any(y.get("k") == "Call" and short(y) in ("remove_if", "unique", "partition", "stable_partition", "copy_if") for x in o for z in [named(x, D) or x] for y in walk(z)):
                continue
            ok = bool(preds)
            for g in preds:
                rs = [y for y in fn_nodes(g) if y.get("k") == "Return"]
                keep = nm in ("copy_if", "partition", "stable_partition", "filter")
                ok = ok and len(rs) == 1 and spare(P, rs[0].get("e"), not keep)
            ck.ob("none-dropped", "%s:%s" % (f["n"], nm), ok, n.where(), "a surface is left out of the list being written only when it needs no entry")


def writer(ck, P, rec, fields):
    f = P.fn("WriteExtendedTexinfoFlags", required=False)
    if f is None:
        c = [g for g in P.fns.values() if g["f"].startswith("qbsp/") and g.get("body") and any(
            x.get("k") == "Str" and x.get("v") == "texinfo.json" for x in fn_nodes(g))]
        if len(c) != 1:
            raise model.AnalysisBroken("the sidecar writer")
        f = c[0]
    keep = ("needs_write", "emptyExact", "begin", "end", "exists", "remove")
    B = cfg.Builder(P, inline=lambda g, c, d: not g["n"].startswith(("logging::", "fmt::", "Error", "FError", "settings::")) and g["n"].split("::")[-1] not in keep,
                    max_depth=4).build(f)
    D = flow.defs(B)
    # the comparisons with an output number
    keys = {}  # key -> {member}
    objs = 0
    for n in B.nodes:
        if n.kind != "ev" or n.ast is None:
            continue
        ins = insertion(n.ast, D)
        if ins is None:
            continue
        kk = lit(ins[1], D)
        if kk is not None:
            m = member(ins[2], D, fields)
            ck.ob("written-value", "%s:%s" % (f["n"], kk), m is not None, n.where(), "the value stored under '%s' is a property of the surface" % kk)
            if m is not None:
                keys.setdefault(kk, set()).add(m)
                c = cut(ins[2], D)
                ck.ob("whole-value", "%s:%s" % (f["n"], kk), c is None, n.where(), "the value of %s is stored as it is%s" % (m, " (cut to %s)" % c if c else ""))
        else:
            objs += 1
            t = named(ins[1], D)
            ok = False
            if t is not None and t.get("k") == "Call" and short(t) in ("to_string", "format"):
                ok = any(named(a, D) is not None and named(a, D).get("k") == "Member" and named(a, D).get("f") == "outputnum" for a in operands(t))
            ck.ob("filed-under-number", f["n"], ok, n.where(), "each surface's entry is filed under its own output number")
    dropping(ck, P, f, B, D)
    if not objs or len(keys) < 10:
        raise model.AnalysisBroken("the sidecar writer stores %d keys" % len(keys))
    for kk, ms in sorted(keys.items()):
        ck.ob("one-property-per-key", "%s:%s" % (f["n"], kk), len(ms) == 1, model.loc(f), "key '%s' carries exactly one property (%s)" % (kk, ", ".join(sorted(ms))))
    bykey = {next(iter(v)): k for k, v in keys.items()}

    def opt(m):
        return next(x for x in rec["fields"] if x["n"] == m)["t"].startswith("std::optional<")

    def mentions_ext(e):
        return any(x.get("k") in ("Member", "Ref") and "noextendedsurfflags" in (x.get("f") or x.get("n") or "") for x in walk(e))

    # element variables: RVar of range loops over a container of surfaces
    def surf_loop(n):
        e = n.ast
        if e is None or e.get("k") != "RFor":
            return False
        t = (strip(e.get("range")) or {}).get("t", "")
        return "texinfo_t" in t

    for m, kk in sorted(bykey.items()):
        dflt = default_of(P, rec, m)
        o = opt(m)

        # state: (stage, flags) ; stage: 'out' (not on our surface), 'in' (current element is ours), 'wr' (value stored), 'obj' (entry filed); seen: ours was visited in this loop
        # bools: frozenset of local bool variables known true / false
        def step(n, s, lab):
            stage, seen, filed, bools = s
            if lab == "exc":
                return None
            if n.kind == "loop" and surf_loop(n):
                if lab == "done":
                    return ("out", None, filed, bools) if seen == n.i else None
                if lab == "iter":
                    outs = [("out", seen, filed, bools)]
                    if seen != n.i:
                        outs.append(("in", n.i, filed, bools))
                    return outs
            e = n.ast
            if e is None:
                return s
            if n.kind == "ev":
                if e.get("k") == "Var" and e.get("t", "").replace("const ", "") == "bool" and e.get("init") is not None:
                    v = cfg.cval(e["init"])
                    if v is None and calls_needs_write(P, e["init"]):
                        v = 1
                    b = frozenset(x for x in bools if x[0] != e["id"])
                    if v is not None:
                        b = b | {(e["id"], bool(v))}
                    return (stage, seen, filed, b)
                a = assignment(e)
                if a is not None and strip(a[0]).get("t", "") == "bool" and strip(a[0]).get("k") == "Ref":
                    i = strip(a[0]).get("id")
                    v = cfg.cval(a[1])
                    if v is None and calls_needs_write(P, a[1]):
                        v = 1
                    b = frozenset(x for x in bools if x[0] != i)
                    if v is not None:
                        b = b | {(i, bool(v))}
                    return (stage, seen, filed, b)
                if stage in ("in", "wr"):
                    ins = insertion(e, D)
                    if ins is not None:
                        q = lit(ins[1], D)
                        if q == kk:
                            return ("wr", seen, filed, bools)
                        if q is None:
                            return ("done", seen, filed or stage == "wr", bools)
                return s
            if n.kind == "br" and lab in (True, False):
                c, pol = c04.core(e, D)
                want = lab if pol else not lab
                if c is not None:
                    cc = strip(c)
                    if cc.get("k") == "Ref":
                        for i, v in bools:
                            if i == cc.get("id"):
                                return s if v == want else None
                    if cc.get("k") == "Call" and short(cc) == "needs_write" and stage != "out":
                        return s if want else None
                    if calls_needs_write(P, cc):
                        return s if want else None
                    if mentions_ext(cc):
                        return s if not want else None
                    if stage != "out":
                        if cc.get("k") == "Call" and short(cc) in ("has_value", "operator bool") and any(x.get("k") == "Member" and x["f"] == "outputnum" for x in walk(cc)):
                            return s if want else None
                        if cc.get("k") == "Member" and cc["f"] == "outputnum":
                            return s if want else None
                if stage != "out":
                    r = differs(e, D, m, fields, dflt, o)
                    if r is not None:
                        return s if r == lab else None
            return s
        F = flow.Flow(B, ("out", None, False, frozenset()), step)
        bad = [s for s in F.states(B.exit) if not s[2]]
        ok = bool(F.states(B.exit)) and not bad
        ck.ob("written", "%s:%s" % (f["n"], m), ok, model.loc(f) + (" via " + F.trace(B.exit, bad[0]) if bad else ""),
              "a surface whose %s differs from the default gets an entry carrying it under '%s'" % (m, kk))
        # a stored optional is present
        if o:
            def step2(n, s, lab):
                if lab == "exc":
                    return None
                if n.kind == "loop" and n.ast is not None and n.ast.get("k") == "RFor":
                    return "?"
                if n.kind == "br" and lab in (True, False) and n.ast is not None:
                    r = differs(n.ast, D, m, fields, dflt, o)
                    if r is not None:
                        return "set" if r == lab else "unset"
                return s
            F2 = flow.Flow(B, "?", step2)
            for n in B.nodes:
                if n.kind == "ev" and n.ast is not None:
                    ins = insertion(n.ast, D)
                    if ins is not None and lit(ins[1], D) == kk and F2.states(n):
                        ck.ob("present-when-written", "%s:%s" % (f["n"], kk), F2.states(n) == {"set"}, n.where(), "'%s' is stored only when the property has a value" % kk)

    # stale sidecar
    ext = sorted({x["v"] for g in [f] for n in B.nodes if n.ast is not None for x in walk(n.ast) if x.get("k") == "Str" and "texinfo" in x.get("v", "")})

    def step3(n, s, lab):
        e = n.ast
        if lab == "exc":
            return None
        if e is not None:
            if n.kind == "ev" and e.get("k") == "Call" and short(e) == "remove" and "filesystem" in e.get("n", ""):
                return "clean"
            if n.kind == "ev" and e.get("k") == "Construct" and "basic_ofstream" in e.get("t", "") and not any(
                    x.get("n", "").endswith(("::app", "::ate")) for x in walk(e) if x.get("k") == "Ref"):
                return "clean"
            if n.kind == "br" and lab in (True, False):
                c, pol = c04.core(e, D)
                if c is not None and strip(c).get("k") == "Call" and short(strip(c)) == "exists" and lab != pol:
                    return "clean"
        return s
    F3 = flow.Flow(B, "stale", step3)
    ck.ob("stale-removed", f["n"], F3.states(B.exit) == {"clean"}, model.loc(f), "a sidecar left by an earlier compile is removed or replaced on every path")
    return f, bykey, ext


def reader(ck, P, rec, fields, bykey):
    f = P.fn("LoadExtendedTexinfoFlags", required=False)
    if f is None:
        c = [g for g in P.fns.values() if g["f"].startswith("light/") and g.get("body") and any(
            x.get("k") == "Str" and x.get("v") == "texinfo.json" for x in fn_nodes(g))]
        if len(c) != 1:
            raise model.AnalysisBroken("the sidecar reader")
        f = c[0]
    B = cfg.Builder(P, inline=lambda g, c, d: not g["n"].startswith(("logging::", "fmt::", "Error", "FError", "settings::")), max_depth=4).build(f)
    D = flow.defs(B)
    ftype = {x["n"]: x["t"] for x in rec["fields"]}

    def bare(t):
        t = t.replace("const ", "").replace(" &", "").strip()
        if t.startswith("std::optional<") and t.endswith(">"):
            t = t[len("std::optional<"):-1].strip()
        return t

    def source(e):
        """(key, type) of j.at(k).get<T>() and the like"""
        e = strip(e)
        for _ in range(8):
            if e is None:
                return None
            if e.get("k") == "Construct" and len(e.get("args", ())) == 1:
                e = strip(e["args"][0])
            elif e.get("k") == "Ref" and D.get(e.get("id")) is not None:
                e = strip(D[e["id"]])
            else:
                break
        if e is None:
            return None
        if e.get("k") == "Call" and short(e) in ("get", "get_to", "operator bool") or e.get("k") == "Call" and short(e).startswith("operator "):
            o = operands(e)
            s = json_slot(o[0], D) if o else None
            if s is not None:
                return lit(s[1], D), e.get("t", "")
        if e.get("k") == "Call" and short(e) == "value" and "basic_json" in strip(operands(e)[0]).get("t", "") and len(operands(e)) >= 2:
            return lit(operands(e)[1], D), e.get("t", "")
        return None

    got = {}
    sites = []
    decls = {n.ast["id"]: n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var"}
    copies = {}  # store -> the local object (not a reference into the table) it goes to

    def local(e, n):
        e = strip(e)
        b = strip(e.get("base")) if e is not None and e.get("k") == "Member" and e.get("base") else None
        for _ in range(6):
            if b is None or b.get("k") != "Ref" or b.get("id") not in decls:
                return
            v = decls[b["id"]].ast
            if "&" not in v.get("t", "") and "*" not in v.get("t", ""):
                copies[n.i] = decls[b["id"]]
                return
            b = strip(v["init"]) if v.get("init") is not None else None
    for n in B.nodes:
        if n.kind != "ev" or n.ast is None:
            continue
        e = n.ast
        a = assignment(e)
        if a is not None:
            m = member(a[0], D, fields)
            if m is None:
                continue
            s = source(a[1])
            ck.ob("read-value", "%s:%s" % (f["n"], m), s is not None and s[0] is not None, n.where(), "the property %s is taken from the entry" % m)
            if s is None:
                continue
            sites.append((n, m, s))
            c = cut(a[1], D)
            ck.ob("whole-value", "%s:%s" % (f["n"], m), c is None, n.where(), "the value of %s is taken as it is%s" % (m, " (cut to %s)" % c if c else ""))
            local(a[0], n)
        elif e.get("k") == "Call" and short(e) == "get_to" and len(operands(e)) == 2:
            m = member(operands(e)[1], D, fields)
            s = json_slot(operands(e)[0], D)
            if m is not None and s is not None:
                sites.append((n, m, (lit(s[1], D), bare(ftype[m]))))
                local(operands(e)[1], n)
    for n, m, (kk, t) in sites:
        got.setdefault(kk, set()).add(m)
        w = {k: mm for mm, k in bykey.items()}.get(kk)
        ck.ob("same-property", "%s:%s" % (f["n"], kk), w is None or w == m, n.where(), "the entry's '%s' is stored into the property it was written from (%s, not %s)" % (kk, w, m))
        ck.ob("same-type", "%s:%s" % (f["n"], kk), bare(t) == bare(ftype[m]), n.where(), "'%s' is read with the property's type %s (read as %s)" % (kk, bare(ftype[m]), bare(t)))

    # element access
    def is_elem(e):
        e = strip(e)
        if e is None or e.get("k") != "Call" and e.get("k") != "Index":
            return None
        if e["k"] == "Call" and (e.get("op") == "[]" or short(e) == "at"):
            o = operands(e)
            if len(o) == 2 and any(x.get("n") == EXT for x in walk(named(o[0], D) or o[0]) if x.get("k") == "Ref"):
                return o[1], short(e) == "at"
        return None
    elems = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and is_elem(n.ast)]
    if not elems:
        raise model.AnalysisBroken("the loader's entry access")

    def bound(e, ik, lab):
        """the condition's outcome bounds the index below the table size"""
        c, pol = c04.core(e, D)
        c = strip(c) if c is not None else None
        if c is None or c.get("k") != "Bin" or c["op"] not in ("<", ">", "<=", ">="):
            return False
        lab = lab if pol else not lab

        def size(x):
            x = named(x, D)
            return x is not None and x.get("k") == "Call" and short(x) in ("size", "ssize") and any(
                y.get("k") == "Member" and y["f"] == "texinfo" or y.get("k") == "Ref" and y.get("n") == EXT for y in walk(x))
        a, b = c["a"], c["b"]
        if key(strip(a)) == ik and size(b):
            return (c["op"], lab) in (("<", True), (">=", False))
        if key(strip(b)) == ik and size(a):
            return (c["op"], lab) in ((">", True), ("<=", False))
        return False
    for n in elems:
        ix, chk = is_elem(n.ast)
        ik = key(strip(ix))

        def step(nd, s, lab):
            e = nd.ast
            if lab == "exc":
                return None
            if e is None:
                return s
            if nd.kind == "ev" and e.get("k") == "Var" and str(e.get("id")) == ik:
                return False
            if nd.kind == "ev" and assignment(e) and key(strip(assignment(e)[0])) == ik:
                return False
            if nd.kind == "br" and lab in (True, False) and bound(e, ik, lab):
                return True
            return s
        F = flow.Flow(B, False, step)
        ck.ob("index-checked", f["n"], chk or F.states(n) <= {True}, n.where(), "an entry's index is below the number of surfaces before it selects one")
        t = named(ix, D)
        ck.ob("own-index", f["n"], t is not None and any(x.get("k") == "Call" and short(x) in ("stoull", "stoul", "stoi", "stol", "stoll", "atoi", "strtoul", "from_chars") for x in walk(t)),
              n.where(), "the index is the entry's own key")
        c = cut(ix, D, 32)
        ck.ob("own-index", f["n"] + ":whole", c is None, n.where(), "the index is not cut on its way%s" % (" (to %s)" % c if c else ""))
    # size of the table
    rs = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and short(n.ast) in ("resize", "assign") and any(
        x.get("n") == EXT for x in walk(operands(n.ast)[0]) if x.get("k") == "Ref")]
    for n in rs:
        ok = any(y.get("k") == "Member" and y["f"] == "texinfo" for x in operands(n.ast)[1:2] for y in walk(named(x, D) or x))
        ck.ob("table-size", f["n"], ok, n.where(), "the table holds one entry per surface of the map")

    # every key present in an entry is stored
    for m, kk in sorted(bykey.items()):
        if kk not in got:
            ck.ob("read", "%s:%s" % (f["n"], kk), False, model.loc(f), "the loader reads '%s'" % kk)
            continue
        nodes = {n.i for n, mm, (k2, t) in sites if k2 == kk and mm == m}
        el = {n.i for n in elems}
        own = {copies[i].i for i in nodes if i in copies}

        def step(n, s, lab):
            if lab == "exc":
                return None
            if s == "lost":
                return s
            if own:
                # built aside and then stored into the table
                if n.i in own:
                    return "lost" if s in ("open", "built") else "open"
                if n.i in el:
                    return s if s == "idle" else "done" if s in ("built", "done") else "lost"
                if n.i in nodes:
                    return "built"
            if n.i in el:
                return "lost" if s == "open" else "open"
            if n.i in nodes:
                return "done"
            if s == "open" and n.kind == "br" and lab in (True, False) and n.ast is not None:
                c, pol = c04.core(n.ast, D)
                c = strip(c) if c is not None else None
                want = lab if pol else not lab
                if c is not None and c.get("k") == "Call":
                    nm = short(c)
                    if nm in ("contains", "count") and lit((c.get("args") or [None])[0], D) == kk:
                        return s if want else None
                    if c.get("op") in ("!=", "=="):
                        for x in operands(c):
                            x = named(x, D)
                            if x is not None and x.get("k") == "Call" and short(x) == "find" and lit((x.get("args") or [None])[0], D) == kk:
                                return s if want == (c["op"] == "!=") else None
            return s
        F = flow.Flow(B, "idle", step)
        bad = [s for s in F.states(B.exit) if s in ("open", "lost", "built")]
        ck.ob("read", "%s:%s" % (f["n"], kk), not bad, model.loc(f) + (" via " + F.trace(B.exit, bad[0]) if bad else ""),
              "an entry carrying '%s' sets the surface's %s on every path" % (kk, m))
    ext = sorted({x["v"] for n in B.nodes if n.ast is not None for x in walk(n.ast) if x.get("k") == "Str" and "texinfo" in x.get("v", "") and "." in x.get("v", "") and " " not in x["v"]})
    return f, got, ext


def compare(ck, P, rec, fields):
    """needs_write and the ordering cover every property"""
    fs = [g for g in P.fns.values() if g["n"] in (REC + "::needs_write", REC + "::operator<", REC + "::operator>") and g.get("body")]
    if len(fs) < 2:
        raise model.AnalysisBroken("surfflags_t comparison")
    for f in sorted(fs, key=lambda g: g["n"]):
        defaulted = not any(x.get("k") == "Member" for x in fn_nodes(f)) and f.get("defaulted")
        B = cfg.Builder(P, inline=lambda g, c, d: True, max_depth=4).build(f)
        seen = {}
        if f["n"].endswith("needs_write"):
            D = flow.defs(B)
            for x in fn_nodes(f):
                if x.get("k") != "Return" or x.get("e") is None:
                    continue
                c, pol = c04.core(x["e"], D)
                op = (strip(c) or {}).get("op") if c is not None else None
                ck.ob("any-difference", f["n"], not (op in ("<", ">", "<=", ">=") or op == "==" and pol or op == "!=" and not pol), model.loc(f, x),
                      "any difference from the default, in either direction, asks for an entry")
        for n in B.nodes:
            if n.kind != "ev" or n.ast is None or n.ast.get("k") != "Member":
                continue
            if n.ast["f"] in fields:
                b = model.path(n.ast.get("base")) if n.ast.get("base") else "this"
                side = "this" if "this" in b else "other"
                seen.setdefault(n.ast["f"], set()).add(side)
        for x in sorted(fields):
            ck.ob("comparison-complete", "%s:%s" % (f["n"].split("::")[-1], x), defaulted or len(seen.get(x, ())) >= 2, model.loc(f),
                  "%s takes %s of both sides into account" % (f["n"].split("::")[-1], x))


def run(ck):
    P = ck.load("common", "qbsp", "light")
    rec = P.rec(REC)
    fields = {x["n"] for x in rec["fields"]}
    w, bykey, ext1 = writer(ck, P, rec, fields)
    r, got, ext2 = reader(ck, P, rec, fields, bykey)
    ck.ob("same-file", "sidecar-extension", len(ext1) == 1 and ext1 == ext2, model.loc(w), "writer and loader name the sidecar alike (%s / %s)" % (ext1, ext2))
    used = {}
    inl = effects_reach(P, r)
    for g in P.fns.values():
        if not g["f"].startswith(("light/", "include/light/")) or g["key"] == r["key"] or g["key"] in inl:
            continue
        for x in fn_nodes(g):
            m = member(x, {}, fields) if x.get("k") == "Member" else None
            if m:
                used.setdefault(m, (g, x))
    for m, (g, x) in sorted(used.items()):
        if m == NATIVE:
            continue
        ck.ob("carried", m, m in bykey and any(m in v for v in got.values()), model.loc(g, x), "%s, consulted by the light compiler, is written by the compiler and read back" % m)
    for kk in sorted(got):
        pass
    compare(ck, P, rec, fields)
    ck.floor("written", 15)
    ck.floor("read", 15)
    ck.floor("comparison-complete", 20)
    ck.floor("carried", 8)
    ck.assumptions = ["the JSON library stores and returns values unchanged", "properties are compared with their default member initialisers"]


def effects_reach(P, r):
    """functions only the loader calls"""
    import effects
    cg = effects.callgraph(P)
    out = set()
    for k in effects.reach(P, [r["key"]]):
        callers = [a for a, bs in cg.items() if k in bs]
        if callers and all(c == r["key"] or c in out for c in callers):
            out.add(k)
    return out
