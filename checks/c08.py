"""C08: the vis state file: replaced only by a complete one, resumed only when it matches."""
import re
import cfg, model, flow, effects, streams, vsets, sym, rle, loops
import c20
from flow import key, short, operands
from model import strip, walk

RULE = ("Typestate and provenance over the inlined control-flow graphs of saving, loading and discarding the vis state: the previous state is removed or replaced only after the "
        "new file was closed and tested good, it is discarded only after the map was written, loading reports success only on paths where every identifying header field was "
        "compared with the value it is saved from, the file is not older than the portals and every value read was tested before use; records and rows are loaded into the "
        "members they were saved from, the run-length escape values agree, and no portal stays 'in progress'.")

FSMOD = ("remove", "rename", "copy_file", "resize_file", "copy", "remove_all")


def fscall(e):
    return e.get("k") == "Call" and e.get("n", "").startswith("std::filesystem::") and short(e) in FSMOD


def cval(e):
    for x in (e, strip(e)):
        if x is not None and "cv" in x:
            return x["cv"]
        if x is not None and x.get("k") == "Int":
            return x["v"]
    return None


def small(fn, c, d):
    return not fn["n"].startswith(("logging::", "fmt::", "Error", "VError")) and fn["f"].startswith(("vis/", "include/vis/"))


def gpath(e):
    """access path starting in a global object, as text"""
    e = strip(e)
    k = (e or {}).get("k")
    if k == "Ref":
        return e["gk"] if e.get("gk") else None
    if k == "Member" and e.get("base") is not None:
        b = gpath(e["base"])
        return b and b + "." + e["f"]
    if k == "Call" and short(e) in ("value", "size", "get") and e.get("obj") is not None:
        return gpath(e["obj"])
    return None


def globals_of(e, defs, depth=0):
    out = set()
    if e is None or depth > 4:
        return out
    top = strip(e)
    g = gpath(top)
    if g:
        return {g}
    if top.get("k") == "Ref":
        if top.get("id") in defs and defs[top["id"]] is not None:
            return globals_of(defs[top["id"]], defs, depth + 1)
        return out
    for x in model.kids(top):
        out |= globals_of(x, defs, depth + 1)
    return out


def builder(P, f, inline=small, depth=5):
    return cfg.Builder(P, inline=inline, max_depth=depth).build(f)


# ---------------------------------------------------------------- saving
def saving(ck, P):
    f = P.fn("SaveVisState")
    B = builder(P, f)
    defs = flow.defs(B)
    ks = streams.outstreams(B)
    ren = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and fscall(n.ast) and short(n.ast) == "rename"]
    rem = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and fscall(n.ast) and short(n.ast) != "rename"]
    opened = set()
    for k, n in ks.items():
        src = n.ast.get("init") if n.ast["k"] == "Var" else n.ast["args"][0]
        opened |= {x["gk"] for x in walk(src) if x.get("k") == "Ref" and x.get("gk") and "path" in x.get("t", "")}
    ck.ob("temp-file", "SaveVisState:rename", bool(ren), model.loc(f), "the new state must be moved into place after it was written")
    finals = set()
    for n in ren:
        a = n.ast["args"]
        src, dst = globals_of(a[0], defs), globals_of(a[1], defs)
        finals |= dst
        ck.ob("temp-file", "SaveVisState:rename-source", src == opened and src != dst, n.where(), "the file moved into place (%s) must be the one written (%s), not the final one" % (src, opened))
    for d in finals:
        ck.ob("temp-file", "SaveVisState:open-final", d not in opened, model.loc(f), "the previous state must not be opened for writing")
    for k, n in ks.items():
        S = streams.OutStream(B, k)
        for r in ren + rem:
            st = {x[0] for x in S.F.states(r)}
            bad = sorted(st - {"ok"})
            ck.ob("replace-after-ok", "SaveVisState:%s" % short(r.ast), not bad, r.where(),
                  "the previous state may be removed or replaced only when the new file was closed and tested good (stream is %s here)" % (sorted(st) or "?"))
    # errors of the final rename are reported
    for n in ren:
        a = n.ast["args"]
        ec = [x for x in a if "error_code" in x.get("t", "")]
        if not ec:
            ck.ob("rename-checked", "SaveVisState:rename", True, n.where(), "the throwing overload is used")
            continue
        ek = key(ec[0])

        def step(m, s, lab, n=n, ek=ek):
            if m is n:
                return "set" if lab != "exc" else s
            if m.kind == "br" and lab in (True, False) and s == "set":
                e, pol = strip(m.ast), lab
                for _ in range(8):
                    if e.get("k") == "Un" and e["op"] == "!":
                        e, pol = strip(e["e"]), not pol
                    elif e.get("k") == "Ref" and e.get("id") in defs and defs[e["id"]] is not None:
                        e = strip(defs[e["id"]])
                if any(x.get("k") in ("Ref", "Member") and key(x) == ek for x in walk(e)):
                    if e.get("k") == "Bin" and e["op"] == "==" or e.get("op") == "==":
                        pol = not pol
                    return "bad" if pol else "fine"
            return s
        F = flow.Flow(B, "none", step)
        left = F.states(B.exit) & {"set", "bad"}
        ck.ob("rename-checked", "SaveVisState:rename", not left, n.where(), "a failed replacement must end in an error, not in a normal return")
    return B


# ---------------------------------------------------------------- discarding
def discarding(ck, P):
    cleaners = set()
    for k, f in P.fns.items():
        if f["f"].startswith("vis/") and f["n"] != "SaveVisState" and f["n"] != "LoadVisState":
            if any(fscall(x) for x in model.fn_nodes(f)):
                cleaners.add(k)
    mains = [f for f in P.named("vis_main") if any(x.get("k") == "Call" and short(x) == "WriteBSPFile" for x in model.fn_nodes(f)) or any(
        P.fns[k]["n"] == "WriteBSPFile" for k in effects.reach(P, [f["key"]]))]
    done = 0
    for f in mains:
        B = builder(P, f, inline=lambda fn, c, d: fn["f"].startswith("vis/") and any(P.fns[k]["n"] in ("WriteBSPFile",) or k in cleaners for k in effects.reach(P, [fn["key"]])) and
                    fn["key"] not in cleaners)

        def step(n, s, lab):
            if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and lab != "exc":
                if short(n.ast) == "WriteBSPFile":
                    return "written"
            return s
        F = flow.Flow(B, "unwritten", step)
        for n in B.nodes:
            if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and (n.ast.get("fn") in cleaners or fscall(n.ast)):
                sts = F.states(n)
                if not sts:
                    continue
                done += 1
                ck.ob("discard-after-write", "vis_main:%s" % short(n.ast), sts == {"written"}, n.where(), "the state may be discarded only after the map with the result was written")
    return done


# ---------------------------------------------------------------- loading
HDR, PORT = "dvisstate_t", "dportal_t"


def member_of(e, cls):
    e = strip(e)
    if e is not None and e.get("k") == "Member" and e.get("cls") == cls:
        return e["f"]
    return None


def loading(ck, P, SB):
    f = P.fn("LoadVisState")
    B = builder(P, f)
    defs = flow.defs(B)
    sdefs = flow.defs(SB)
    # header fields and the program state each is saved from
    ident = {}
    for n in SB.nodes:
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Bin" and e["op"] == "=":
            m = member_of(e["a"], HDR)
            if m and m != "time_elapsed":
                ident[m] = (globals_of(e["b"], sdefs), cval(e["b"]))
    if len(ident) < 3:
        raise model.AnalysisBroken("header fields saved: %s" % ident)

    # times of the two files
    times = {}
    for n in B.nodes:
        e = n.ast
        if n.kind != "ev" or e is None:
            continue
        tgt, val = (e["id"], e.get("init")) if e.get("k") == "Var" else (key(e["a"]), e["b"]) if e.get("k") == "Bin" and e["op"] == "=" else (
            key(operands(e)[0]), operands(e)[1]) if e.get("k") == "Call" and e.get("op") == "=" and len(operands(e)) == 2 else (None, None)
        if val is not None and tgt:
            for x in walk(val):
                if x.get("k") == "Call" and short(x) == "last_write_time":
                    times.setdefault(tgt, set()).update(globals_of(x["args"][0], defs))
    def tside(e):
        e = strip(e)
        if e is None:
            return None
        if e.get("k") == "Call" and short(e) == "last_write_time":
            g = globals_of(e["args"][0], defs)
        else:
            g = times.get(key(e))
        if not g:
            return None
        return "prt" if g == {"portalfile"} else "state" if "portalfile" not in g else None

    def timecmp(e):
        """op with the portal file on the left"""
        e = strip(e)
        if e is None:
            return None
        op = e.get("op")
        a = b = None
        if op in ("<", ">", "<=", ">="):
            o = operands(e) if e["k"] == "Call" else [e["a"], e["b"]]
            if len(o) == 2:
                a, b = o
                x = strip(a)
                if x.get("k") == "Call" and x.get("op") == "<=>":
                    a, b = operands(x)
        if a is None:
            return None
        sa, sb = tside(a), tside(b)
        if sa == "prt" and sb == "state":
            return op
        if sa == "state" and sb == "prt":
            return {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        return None
    ins = {}
    for n in B.nodes:
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Var" and "ifstream" in e.get("t", "") and not e["t"].endswith("&"):
            ins[e["id"]] = n
    if len(ins) != 1:
        raise model.AnalysisBroken("state input streams: %d" % len(ins))
    ik = list(ins)[0]

    def pol_of(e, depth=0):
        """True: expression true means the stream is good"""
        e = strip(e)
        if e is None or depth > 5:
            return None
        if e.get("k") == "Call" and operands(e) and key(operands(e)[0]) == ik:
            return {"operator!": False, "fail": False, "good": True, "operator bool": True}.get(short(e))
        if e.get("k") == "Un" and e["op"] == "!":
            p = pol_of(e["e"], depth + 1)
            return None if p is None else not p
        if e.get("k") == "Ref" and e.get("id") in defs and defs[e["id"]] is not None:
            return pol_of(defs[e["id"]], depth + 1)
        return None
    used = {}

    def step(n, s, lab):
        facts, st = s
        e = n.ast
        if e is None:
            return s
        if n.kind == "br" and lab in (True, False):
            p = pol_of(e)
            if p is not None:
                return (facts, "ok" if p == lab else "failed")
            x = strip(e)
            if x.get("k") == "Bin" and x["op"] in ("==", "!="):
                for a, b in ((x["a"], x["b"]), (x["b"], x["a"])):
                    m = member_of(a, HDR)
                    if m in ident and (x["op"] == "==") == lab:
                        g, v = globals_of(b, defs), cval(b)
                        if g == ident[m][0] and (not g and v == ident[m][1] or g):
                            facts = facts | {m}
            t = timecmp(x)
            if t is not None:
                o = t if lab else {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[t]
                if o in ("<", "<="):
                    facts = facts | {"fresh"}
            return (facts, st)
        if n.kind != "ev" or lab == "exc":
            return s
        k = e.get("k")
        # values read are used only after the test (the header's magic number protects itself)
        if st != "ok":
            tgt = val = None
            if k == "Bin" and e["op"] == "=":
                val, tgt = e["b"], e["a"]
            elif k == "Call" and e.get("op") != ">=" and short(e) in ("DecompressBits", "CopyLeafBits", "read"):
                val = e
            if val is not None:
                for x in walk(val):
                    if member_of(x, PORT):
                        used[(n.i, member_of(x, PORT))] = n
        if k == "Call":
            o = operands(e)
            rd = None
            if o and key(o[0]) == ik and (e.get("op") == ">=" or short(e) in ("read", "get", "getline") or e.get("op") == ">>" and not any(
                    "endianness" in str(x.get("n", "")) for a in o for x in walk(a))):
                rd = True
            if rd:
                if st == "failed":
                    return None
                st = "header" if any(HDR in x.get("t", "") for a in o[1:] for x in walk(a)) else "unchecked"
        return (facts, st)
    F = flow.Flow(B, (frozenset(), "ok"), step)
    ck.count("states_explored", F.visited)
    rets = []
    for n in B.nodes:
        if n.kind in ("ret",) or n.ast is not None and n.ast.get("k") == "Return" and n.fn is f:
            rets.append(n)
    need = set(ident) | {"fresh"}
    okret = 0
    for n in rets:
        v = n.ast.get("e") if n.ast.get("k") == "Return" else n.ast
        c = cval(v) if v is not None else None
        if c == 0 or v is not None and strip(v).get("k") == "Int" and not strip(v)["v"]:
            continue
        okret += 1
        for s in F.states(n):
            for m in sorted(need - s[0]):
                ck.ob("resume-checked", "LoadVisState:%s" % m, False, n.where(), "the state is resumed on a path where %s" % (
                    "it may be older than the portal file" if m == "fresh" else "%s was not compared with the present value it was saved from" % m))
            ck.ob("resume-checked", "LoadVisState:input", s[1] in ("ok", "header"), n.where(), "the state is resumed after a read that was not tested")
    for m in sorted(need):
        if all(m in s[0] for n in rets for s in F.states(n) if cval((n.ast or {}).get("e")) != 0):
            ck.ob("resume-checked", "LoadVisState:%s" % m, True, model.loc(f), "compared on every path that resumes")
    if not okret:
        raise model.AnalysisBroken("LoadVisState has no successful return")
    for (i, m), n in used.items():
        ck.ob("tested-before-use", "LoadVisState:%s" % m, False, n.where(), "%s is used although the read that produced it was not tested" % m)
    if not used:
        ck.ob("tested-before-use", "LoadVisState", True, model.loc(f), "every value read from the state is used only after the stream was tested")
    return B, ident


# ---------------------------------------------------------------- symmetry
def records(B, cls, outward, defs):
    """{record field: portal member}"""
    out = {}
    for n in B.nodes:
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Bin" and e["op"] == "=":
            a, b = (e["a"], e["b"]) if outward else (None, None)
            if outward:
                m = member_of(e["a"], cls)
                src = deep(e["b"], defs)
                p = member_of(src, "visportal_t")
                if m and p:
                    out.setdefault(m, set()).add(p)
            else:
                p = member_of(e["a"], "visportal_t")
                for x in walk(deep(e["b"], defs)):
                    m = member_of(x, cls)
                    if m and p:
                        out.setdefault(m, set()).add(p)
    return out


def deep(e, defs, d=0):
    e = strip(e)
    while e is not None and e.get("k") == "Ref" and e.get("id") in defs and defs[e["id"]] is not None and d < 5:
        e = strip(defs[e["id"]])
        d += 1
    return e


def symmetry(ck, P, SB, LB):
    sdefs, ldefs = flow.defs(SB), flow.defs(LB)
    s, l = records(SB, PORT, True, sdefs), records(LB, PORT, False, ldefs)
    for m in sorted(set(s) | set(l)):
        ck.ob("same-member", "dportal_t:%s" % m, s.get(m) == l.get(m) and len(s.get(m, ())) == 1, "vis/state.cc", "saved from %s, loaded into %s" % (sorted(s.get(m, ())), sorted(l.get(m, ()))))
    if len(s) < 2:
        raise model.AnalysisBroken("portal record fields saved: %s" % s)

    # the rows: compressed length field <-> bit set, in file order
    def nocodec(fn, c, d):
        return small(fn, c, d) and (any("stream" in p.get("t", "") for p in fn["params"]) or not any("leafbits_t" in p.get("t", "") for p in fn["params"]))
    SB2 = builder(P, P.fn("SaveVisState"), inline=nocodec)
    LB2 = builder(P, P.fn("LoadVisState"), inline=nocodec)

    def events(B, save):
        lenof, fieldof, out = {}, {}, []
        for n in B.nodes:
            e = n.ast
            if n.kind != "ev" or e is None:
                continue
            if save:
                tgt, val = (e["id"], e.get("init")) if e.get("k") == "Var" else (key(e["a"]), e["b"]) if e.get("k") == "Bin" and e["op"] == "=" else (None, None)
                v = strip(val) if val is not None else None
                calls = [x for x in walk(v) if x.get("k") == "Call" and any(member_of(a, "visportal_t") for a in operands(x))] if v is not None else []
                if tgt and calls:
                    v = calls[0]
                    for a in operands(v):
                        m = member_of(a, "visportal_t")
                        if m:
                            bufs = [key(x) for o in operands(v) for x in walk(o) if x.get("k") == "Ref" and "vector" in x.get("t", "")]
                            lenof.setdefault(tgt, set()).add((m, bufs[0] if bufs else None))
                            if e.get("k") == "Bin" and member_of(e["a"], PORT):
                                fieldof[tgt] = member_of(e["a"], PORT)
                elif tgt and v is not None and v.get("k") == "Ref":
                    if key(v) in lenof:
                        lenof.setdefault(tgt, set()).update(lenof[key(v)])
                    m = e.get("k") == "Bin" and member_of(e["a"], PORT)
                    if m:
                        fieldof[key(v)] = m
                        fieldof[key(e["a"])] = m
                        if key(v) in lenof:
                            lenof[key(e["a"])] = lenof[key(v)]
                if e.get("k") == "Call" and short(e) == "write" and len(e.get("args", ())) == 2:
                    lk = key(e["args"][1])
                    bufs = [key(x) for x in walk(e["args"][0]) if x.get("k") == "Ref" and "vector" in x.get("t", "")]
                    out.append((lk, bufs[0] if bufs else None, n))
            else:
                if e.get("k") == "Call" and short(e) == "read" and len(e.get("args", ())) == 2:
                    out.append(("read", member_of(deep(e["args"][1], flow.defs(B)), PORT), n))
                elif e.get("k") == "Call" and e.get("fn") in P.fns and not fscall(e) and short(e) != "resize":
                    for i, a in enumerate(e.get("args", ())):
                        m = member_of(a, "visportal_t")
                        if m in ("mightsee", "visbits") and i < len(e.get("mp", ())) and e["mp"][i]:
                            out.append(("into", m, n))
        if save:
            seq = []
            for lk, buf, n in out:
                ms = {m for m, b in lenof.get(lk, ()) if b == buf or b is None}
                seq.append((fieldof.get(lk), tuple(sorted(ms)), n))
            return seq
        seq, cur = [], None
        for k, m, n in out:
            if k == "read":
                cur = [m, set(), n]
                seq.append(cur)
            elif cur is not None:
                cur[1].add(m)
        return [(a, tuple(sorted(b)), n) for a, b, n in seq]
    a, b = events(SB2, True), events(LB2, False)
    ck.ob("same-rows", "rows", [x[:2] for x in a] == [x[:2] for x in b] and len(a) >= 2 and all(x[0] and len(x[1]) == 1 for x in a), (a or b)[0][2].where() if a or b else "vis/state.cc",
          "rows are written as %s and read as %s (length field, bit set)" % ([x[:2] for x in a], [x[:2] for x in b]))


def codec(ck, P):
    """Rows are packed and unpacked inside their buffers; repeat counts fit their byte."""
    from facts import Lin, Engine
    import bounds
    pv = lambda E, i: Lin({"v:" + E.B.frame0.map[E.B.fn["params"][i]["id"]]: 1})
    f = P.fn("CompressBits")
    pi = [i for i, p in enumerate(f["params"]) if p["t"].endswith("*")]
    if len(pi) == 1:
        def ev(E, n, st):
            e = n.ast
            if e.get("k") == "Bin" and e["op"] == "=" and strip(e["a"]).get("k") == "Un" and strip(e["a"])["op"] == "*":
                v = strip(e["b"])
                if v.get("k") == "Ref" and v.get("t", "").replace("const ", "") != "unsigned char":
                    L = E.lin(v, st)
                    ck.ob("codec-run", "CompressBits:" + model.path(v), L is not None and E.entails(st, L.shift(-1)) and E.entails(st, L.scale(-1).shift(255)), n.where(),
                          "the stored repeat count must lie in 1..255 (%s)" % L)
        Engine(cfg.Builder(P, inline=bounds.inline_default, max_depth=3).build(f), P, on_event=ev).run()
    g = P.fn("DecompressBits")
    pi = [i for i, p in enumerate(g["params"]) if p["t"].startswith("const unsigned char *")]
    if len(pi) == 2:
        def ev2(E, n, st):
            e = n.ast
            if e.get("k") == "Un" and e["op"] == "*" and e["e"].get("t", "").startswith("const unsigned char *"):
                x = E.lin(e["e"], st)
                ck.ob("codec-read", "DecompressBits:" + model.path(e), x is not None and E.entails(st, (pv(E, pi[1]) - x).shift(-1)), n.where(),
                      "the input must be read below its end (%s)" % x)
        Engine(cfg.Builder(P, inline=bounds.inline_default, max_depth=3).build(g), P, on_event=ev2,
               entry=lambda E, st: E.add(st, pv(E, pi[1]) - pv(E, pi[0]))).run()


def packing(ck, P):
    """A row that was packed unpacks to itself: what the packer emits, what the unpacker stores, and which of the two forms a length means."""
    G = "row-code"

    def put(key, f, bad, text):
        for w, t in bad[:3] or [(None, None)]:
            ck.ob(G, key, not bad, w or model.loc(f), text if not bad else "%s -- %s" % (text, t))
    f = P.fn("CompressBits")
    S = sym.summary(P, f, inline=c20.helpers(P, f))
    out = ["P%d" % i for i, p in enumerate(f["params"]) if sym.isptr(p["t"]) and "const" not in p["t"]]
    bad, esc, main = rle.encoder(S)
    N = None
    rets = {}
    for g, e, how in S.iters["F"]:
        r = [x for x in e if x[0] == "return"]
        if r and not r[-1][1].startswith("?") and not r[-1][1].startswith("index("):
            N = r[-1][1]
            rets.setdefault(N, []).append(e)
    if len(rets) != 1:
        raise model.AnalysisBroken("CompressBits: lengths returned: %s" % sorted(rets))
    put("CompressBits:runs", f, bad + rle.complete(S, main, N, out), "every byte of the row is emitted once, runs of the escape values as the value and the number of bytes in the run")
    bad = []
    for e in rets[N]:
        raw = [x for x in e if x[0] == "loop" and x[1] != main]
        if len(raw) != 1 or raw[0][2] != "i<%s>" % N:
            bad.append((None, "the plain form is not the whole row (%s)" % [x[2] for x in raw]))
        else:
            bad += rle.rawcopy(S, raw[0][1], N)
    # a packed row is told from a plain one by being shorter
    from facts import Engine
    import bounds
    B = cfg.Builder(P, inline=bounds.inline_default, max_depth=3).build(f)
    vals = []

    def ev(E, n, st):
        if n.ast.get("k") == "Return" and n.ast.get("e") is not None and n.fn is f:
            vals.append((n, E.lin(n.ast["e"], st), st, E, n.ast["e"]))
    Engine(B, P, on_event=ev).run()
    heads = [h for h in S.loop if h != main and h not in S.loop[main].body]
    after = {S.B.nodes[i].where() for i in loops.reach_from(S.B, heads) if S.B.nodes[i].ast is not None and S.B.nodes[i].ast.get("k") == "Return"}
    full = [v for v in vals if v[0].where() in after]
    for n, L, st, E, x in vals:
        if any(n is m[0] for m in full):
            continue
        ok = L is not None and any(E.entails(st, (E.lin(m[4], st) - L).shift(-1)) for m in full if E.lin(m[4], st) is not None)
        if not ok:
            bad.append((n.where(), "a packed row may be as long as a plain one (%s)" % L))
    put("CompressBits:plain", f, bad, "a row that does not get shorter is stored plainly, all of it, and a packed one is shorter than a plain one")
    f = P.fn("DecompressBits")
    pin = [i for i, p in enumerate(f["params"]) if sym.isptr(p["t"])]
    S = sym.summary(P, f, inline=c20.helpers(P, f))
    bad, esc2, main, own = rle.decoder(S, "P%d" % pin[0], N)
    if esc2 != esc:
        bad.append((None, "counts follow %s when saving and %s when loading" % (sorted(esc), sorted(esc2))))
    row = ["P%d" % i for i, p in enumerate(f["params"]) if "leafbits_t" in p["t"]]
    for g, e, how in S.iters["F"]:
        k = [i for i, x in enumerate(e) if x[0] == "loop" and x[1] == main]
        if k and not any(x[0] == "mutate" and x[1] == "resize" and x[2] in row for x in e[:k[0]]):
            bad.append((None, "the row is not cleared before its bits are added"))
    put("DecompressBits", f, bad + rle.complete(S, main, N, (), own), "every byte read is stored once in the next place, repeated as often as its count says")
    g0 = P.fn("CopyLeafBits")
    S = sym.summary(P, g0, inline=c20.helpers(P, g0))
    bad, seen = [], 0
    for h, its in S.iters.items():
        if h == "F":
            continue
        seen += 1
        sy = "i<div(7 + 1*P%d,8)>" % (len(g0["params"]) - 1)
        for g, e, how in its:
            st = [x for x in e if x[0] == "|=" or x[0] == "=" and ".w[" in x[1]]
            w = rle.wordat(st[0][1]) if len(st) == 1 else None
            a = rle.args(st[0][2], "shl") if w else None
            m = rle.args(a[1], "mod") if a else None
            if how != "next" or g or not (m and w[2] and rle.terms(w[1]) == {sy: 1} and m[1] == str(8 * w[2]) and rle.terms(m[0]) == rle.scaled(w[1], 8) and rle.terms(a[0]).get(sy) == 1):
                bad.append((S.B.nodes[h].where(), "byte i of the input is stored as %s" % (st,)))
    put("CopyLeafBits", g0, bad if seen == 1 else [(None, "the row is not copied by one loop over its bytes")], "a plain row is loaded byte by byte, all of it")

    # which form is which, in which buffer, and what becomes of the portal's status
    CODE = {"CompressBits", "DecompressBits", "CopyLeafBits"}
    f = P.fn("LoadVisState")
    S = sym.summary(P, f, inline=c20.helpers(P, f) - CODE, calls=("read", "DecompressBits", "CopyLeafBits"))
    bad, badst, rows = [], [], set()
    none, work, done = [next((x["v"] for n, en in P.enums.items() for x in en["e"] if x["n"] == c), None) for c in ("pstat_none", "pstat_working", "pstat_done")]
    for h in S.iters:
        if h == "F" or not any(x[0] == "call" and x[1] == "read" for g, e, how in S.iters[h] for x in e):
            continue
        for g, e, how in S.iters[h]:
            cs = [x for x in e if x[0] == "call"]
            for i, x in enumerate(cs):
                if x[1] != "read":
                    continue
                nx = cs[i + 1] if i + 1 < len(cs) else None
                if nx is None or nx[1] not in ("DecompressBits", "CopyLeafBits"):
                    bad.append((None, "a row read is not unpacked"))
                    continue
                ln, buf = x[4], x[3]
                short_ = ("-1*%s + 1*%s < 0" % (N, ln), True)
                long_ = (short_[0], False)
                rows.add((ln, nx[2].split("@")[0]))
                if nx[1] == "DecompressBits" and (short_ not in g or nx[3] != buf or rle.terms(nx[4].replace("&", "", 1)) != rle.terms("%s[%s]" % (buf[1:].rsplit("[", 1)[0], ln))):
                    bad.append((None, "the bytes %s to %s are unpacked as a packed row of length %s under %s" % (nx[3], nx[4], ln, [a for a, p in g if ln in a and p])))
                if nx[1] == "CopyLeafBits" and (long_ not in g or nx[3] != buf or nx[4] != "portalleafs"):
                    bad.append((None, "%s leafs from %s are taken as a plain row of length %s under %s" % (nx[4], nx[3], ln, [(a, p) for a, p in g if ln in a])))
            cst = {"pstat_none": str(none), "pstat_working": str(work), "pstat_done": str(done)}
            st = [(x[0], x[1], cst.get(x[2], x[2])) for x in e if x[0] == "=" and x[1].endswith(".status")]
            src = {x[2] for x in st if not x[2].lstrip("-").isdigit()}
            if not st or len(src) > 1:
                badst.append((None, "the portal's state is loaded from %s" % sorted(src)))
                continue
            X = list(src)[0] if src else next((t for a, p in g for t in rle.terms(re.sub(r" (<|==) 0$", "", a)) if t.endswith(".status")), None)
            for val, want in ((none, none), (work, none), (done, done)):
                if all(holds(a, p, X, val) is not False for a, p in g):
                    got = st[-1][2]
                    got = val if got == X else int(got) if got.lstrip("-").isdigit() else None
                    if got != want:
                        badst.append((None, "a portal saved with state %d is resumed with %s" % (val, got)))
    put("LoadVisState:form", f, bad, "a row shorter than a plain one is unpacked from exactly the bytes read, any other is copied")
    put("LoadVisState:status", f, badst, "portals finished when the state was saved are finished, all others are started again")
    bad = []
    for g, e, how in S.iters["F"]:
        if ("return", "1") in e and not any(re.search(r"last_write_time\(\w+\),\s*last_write_time\(\w+\)", a) and "portalfile" in a or len(re.findall(r"last_write_time\(", a)) == 2 and "portalfile" in a for a, p in g):
            bad.append((None, "the state is resumed without comparing the two files' own times, under %s" % sorted(a for a, p in g if "time" in a)))
    put("LoadVisState:age", f, bad, "the ages compared are those of the portal file and of the state that is loaded")
    f = P.fn("SaveVisState")
    S = sym.summary(P, f, inline=c20.helpers(P, f) - CODE, calls=("write",))
    bad = []
    for h in S.iters:
        for g, e, how in S.iters[h]:
            held = {}
            for x in e:
                v = x[-1] if x[0] in ("let", "=") else None
                a = rle.args(v, "CompressBits") if type(v) is str and v.startswith("CompressBits(") else None
                if a and x[0] == "let":
                    held[a[0]] = v
                if x[0] == "call" and x[1] == "write" and x[4].startswith("CompressBits("):
                    a = rle.args(x[4], "CompressBits")
                    if x[3] != a[0] or held.get(a[0], x[4]) != x[4]:
                        bad.append((None, "%s is written with the length of another row" % x[3]))
    put("SaveVisState:buffers", f, bad, "the bytes written for a row are those packed from it")


def holds(a, p, X, val):
    """truth of an atom when X is val: True, False or None"""
    m = re.match(r"^(.*) (<|==) 0$", a)
    t = dict(rle.terms(m.group(1) if m else a))
    c = t.pop("", 0)
    if set(t) != {X}:
        return None
    v = c + t[X] * val
    r = v < 0 if m and m.group(2) == "<" else v == 0 if m else v != 0
    return r == p


def run(ck):
    P = ck.load()
    SB = saving(ck, P)
    if not discarding(ck, P):
        ck.notes.append("the state is never discarded")
    LB, ident = loading(ck, P, SB)
    symmetry(ck, P, SB, LB)
    codec(ck, P)
    packing(ck, P)
    ck.floor("row-code", 8)
    ck.floor("replace-after-ok", 1)
    ck.floor("resume-checked", 3)
    ck.floor("same-member", 2)
