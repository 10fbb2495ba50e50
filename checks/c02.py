"""C02: the lump directory is written and read symmetrically, with the published lump numbers."""
import re
import cfg, model, loops, bspver
from ser import Ser, bt
from vsets import VSets, addr_of, strip

RULE = ("For every BSP version, a value-set dataflow over LoadBSPFile decides which lumps are read into which member; the set of lumps written by the "
        "writer is read off WriteBSPFile with every format's write routine inlined. Both must be the same map (published lump number -> member), cover every "
        "member of the format, and agree in element size with the version's table. A path analysis of each lump writer decides that the offset is taken "
        "before and the length after exactly the data bytes, that padding follows, and that the directory is written last at the start of the file.")

# published lump numbers (Quake / Quake II file format documentation)
Q1 = ["dentdata", "dplanes", "dtex", "dvertexes", "dvisdata", "dnodes", "texinfo", "dfaces", "dlightdata", "dclipnodes", "dleafs",
      "dmarksurfaces", "dedges", "dsurfedges", "dmodels"]
Q2 = ["dentdata", "dplanes", "dvertexes", "dvis", "dnodes", "texinfo", "dfaces", "dlightdata", "dleafs", "dleaffaces", "dleafbrushes",
      "dedges", "dsurfedges", "dmodels", "dbrushes", "dbrushsides", None, "dareas", "dareaportals"]
IDENT = {"bspver_q1": (29, None), "bspver_hl": (30, None), "bspver_h2": (29, None), "bspver_bsp2": (0x32505342, None), "bspver_h2bsp2": (0x32505342, None),
         "bspver_bsp2rmq": (0x42535032, None), "bspver_h2bsp2rmq": (0x42535032, None), "bspver_q2": (0x50534249, 38), "bspver_qbism": (0x50534251, 38)}


def elem(t):
    """(class of transfer, element type)"""
    t = bt(t)
    m = re.match(r"^std::vector<(.*), std::allocator<.*>>$", t)
    if m:
        return "vector", m.group(1)
    if t.startswith("std::basic_string"):
        return "string", "char"
    if t == "std::monostate":
        return "none", t
    return "struct", t


def is_version(e):
    return e is not None and e.get("k") in ("Member", "Ref") and bt(e.get("t", "")).replace("const", "").replace(" ", "") == "bspversion_t*"


def version_terms(V, G, keep=lambda e: True):
    u = frozenset(V)
    ids = {k: G.get(v["game"]) for k, v in V.items()}

    def isgid(e):
        if e.get("k") == "Member" and e.get("f") == "id":
            b = strip(e["base"])
            while b.get("k") == "Un" and b["op"] == "*":
                b = strip(b["e"])
            if b.get("k") == "Member" and b.get("f") == "game":
                c = strip(b["base"])
                return is_version(c) and keep(c)
        return False

    def hasver(e):
        # X->version.has_value()  /  (bool)X->version
        if e.get("k") == "Call" and e.get("n", "").split("::")[-1] in ("has_value", "operator bool") and e.get("obj") is not None:
            m = strip(e["obj"])
            return m.get("k") == "Member" and m.get("f") == "version" and is_version(strip(m["base"])) and keep(strip(m["base"]))
        return False

    def enumv(e):
        return cfg.cval(e)
    return ({"version": (u, lambda e: is_version(e) and keep(e), addr_of)},
            {"game": (isgid, ids, "version", enumv), "hasver": (hasver, {k: v["version"] is not None for k, v in V.items()}, "version", None)})


def fmt_member(P, e, fmts, lp):
    """(format class, member) an argument denotes"""
    e = strip(e)
    while e is not None:
        if e.get("k") == "Member":
            c = e.get("cls") or bt((e.get("base") or {}).get("t", ""))
            if c in fmts:
                return c, e["f"]
            e = strip(e.get("base"))
        elif e.get("k") == "Call" and e.get("obj") is not None:
            e = strip(e["obj"])
        elif e.get("k") == "Call" and e.get("args"):
            e = strip(e["args"][0])
        elif e.get("k") == "Ref" and e.get("id") in lp:
            e = strip(lp[e["id"]])
        else:
            return None
    return None


def aliases(B, reach):
    """reference locals and visit()-lambda parameters -> what they stand for"""
    lp = {}
    for n in B.nodes:
        e = n.ast
        if n.i not in reach or e is None or n.kind != "ev":
            continue
        if e.get("k") == "LParam" and e["call"].get("n") == "std::visit":
            lp[e["id"]] = e["call"]["args"][1]
        elif e.get("k") == "Var" and e.get("init") is not None and e["t"].endswith("&"):
            lp[e["id"]] = e["init"]
    return lp


def reader_calls(ck, P, V, G, fmts):
    f = P.fn("LoadBSPFile")
    B = cfg.Builder(P, inline=lambda g, c, d: not g["n"].startswith(("logging::", "fs::", "lump_reader::")) and "stream_" not in g["n"]
                    and g["n"].split("::")[-1] not in ("operator<=", "operator>=", "isHexen2", "BSPVersionSupported"), max_depth=6).build(f)
    terms, derived = version_terms(V, G)
    hdr = {}
    idu = frozenset(v["ident"] for v in V.values()) | {"other"}

    def isident(e):
        return e.get("k") == "Member" and e.get("f") == "ident"
    terms["ident"] = (idu, isident, lambda e: cfg.cval(e) if cfg.cval(e) is not None else None)
    VS = VSets(B, terms, derived=derived)
    lp = aliases(B, set(VS.at))
    out = {v: {} for v in V}
    bad = {}
    for n in B.nodes:
        e = n.ast
        if n.i not in VS.at or n.kind != "ev" or e is None or e.get("k") != "Call":
            continue
        if e.get("op") == ">=" and len(e["args"]) == 2:
            t = bt(e["args"][1].get("t", ""))
            if t in ("dheader_t", "q2_dheader_t"):
                hdr.setdefault(t, set()).update(VS.at[n.i]["ident"])
        if e.get("n") != "lump_reader::read" or len(e["args"]) != 2:
            continue
        ck.count("lump_read_calls")
        idx = cfg.cval(e["args"][0])
        who = fmt_member(P, e["args"][1], fmts, lp)
        kind, et = elem(e["args"][1].get("t", ""))
        for v in VS.at[n.i]["version"]:
            if idx in out.get(v, {}):
                bad.setdefault(v, []).append("lump %s read twice" % idx)
            out.setdefault(v, {})[idx] = (who, kind, et, n.where())
    # every path from the start to the first statement after the dispatch reads all: the reads of one version are unconditional given the version
    return out, bad, hdr, f, B, VS


def writer_calls(ck, P, fmts):
    """{format class: {idx: (member, [(kind, elem)])}}"""
    f = P.fn("WriteBSPFile")
    B = cfg.Builder(P, inline=lambda g, c, d: not g["n"].startswith(("logging::", "fs::")) and "stream_" not in g["n"]
                    and g["n"].split("::")[-1] not in ("operator<=", "operator>=", "write_lump"), max_depth=8).build(f)
    reach = cfg.reachable(B)
    lp = aliases(B, reach)
    out, bad = {}, {}
    for n in B.nodes:
        e = n.ast
        if n.i not in reach or n.kind != "ev" or e is None or e.get("k") != "Call" or e.get("n", "").split("::")[-1] != "write_lump" or len(e["args"]) != 2:
            continue
        ck.count("lump_write_calls")
        idx = cfg.cval(e["args"][0])
        who = fmt_member(P, e["args"][1], fmts, lp)
        g = P.fns.get(e.get("fn"))
        kind, et = elem(g["params"][1]["t"] if g else e["args"][1].get("t", ""))
        cls = who[0] if who else None
        d = out.setdefault(cls, {}).setdefault(idx, [])
        if d and d[0][0] != (who[1] if who else None):
            bad.setdefault(cls, []).append("lump %s written from %s and %s" % (idx, d[0][0], who))
        if any(x[1] == kind and x[2] == et for x in d):
            bad.setdefault(cls, []).append("lump %s written twice" % idx)
        if kind != "none":
            d.append((who[1] if who else None, kind, et, n.where()))
    return out, bad, f, B, reach


def run(ck):
    P = ck.load("common")
    S = Ser(P)
    V = bspver.versions(P)
    G = bspver.games(P)
    V = {k: v for k, v in V.items() if v["lumps"]}
    fmts = {r["n"] for r in P.recs.values() if any(b["n"] in ("q1bsp_tag_t", "q2bsp_tag_t") for b in r.get("bases", ()))}
    if len(fmts) < 5 or len(V) < 9:
        raise model.AnalysisBroken("formats/versions not found: %s %s" % (sorted(fmts), sorted(V)))
    tag = {c: ("q1" if any(b["n"] == "q1bsp_tag_t" for b in P.recs[c]["bases"]) else "q2") for c in fmts}
    rd, rbad, hdr, rf, RB, RVS = reader_calls(ck, P, V, G, fmts)
    wr, wbad, wf, WB, wreach = writer_calls(ck, P, fmts)
    load_t = {}

    def width(et):
        w = S.wire(et, "r")
        return sum(32 if x == ("rec", "texvecf") else x[1] if x[0] in ("i", "f", "pad") else 10 ** 6 for x in w)

    for v, d in sorted(V.items()):
        where = "%s:%d" % (d["f"], d["l"])
        spec = Q2 if d["version"] is not None else Q1
        ck.ob("ident", v, (d["ident"], d["version"]) == IDENT.get(v, (d["ident"], d["version"])), where, "published identification %s" % (IDENT.get(v),))
        ck.ob("table-size", v, len(d["lumps"]) == len(spec), where, "%d lumps" % len(spec))
        classes = {x[0][0] for x in rd[v].values() if x[0]}
        ck.ob("one-format", v, len(classes) == 1 and v not in rbad, model.loc(rf), "%s is read into %s %s" % (v, sorted(classes), rbad.get(v, "")))
        if len(classes) != 1:
            continue
        T = classes.pop()
        load_t[v] = T
        for i, m in enumerate(spec):
            if m is None:
                ck.ob("unused-lump", "%s:%d" % (v, i), i not in rd[v] and i not in wr.get(T, {}), where, "the unused lump is neither read nor written")
                continue
            r = rd[v].get(i)
            ck.ob("read", "%s:%d" % (v, i), r is not None and r[0] == (T, m), r[3] if r else model.loc(rf),
                  "lump %d holds %s, the reader stores it in %s" % (i, m, r and r[0]))
            ws = wr.get(T, {}).get(i, [])
            ck.ob("write", "%s:%d" % (v, i), bool(ws) and all(x[0] == m for x in ws), ws[0][3] if ws else model.loc(wf),
                  "lump %d holds %s, the writer stores %s" % (i, m, [x[0] for x in ws]))
            if r:
                ck.ob("same-elements", "%s:%d" % (v, i), any((x[1], x[2]) == (r[1], r[2]) for x in ws), r[3],
                      "elements of type %s" % r[2])
                size = d["lumps"][i][1]
                want = width(r[2]) if r[1] == "vector" and r[2] not in ("unsigned char", "char") else 1
                ck.ob("element-size", "%s:%d" % (v, i), size == want, where, "table says %s bytes per %s, the stream carries %s" % (size, r[2], want))
        extra = [i for i in list(rd[v]) + list(wr.get(T, {})) if i is None or i >= len(spec)]
        ck.ob("no-extra", v, not extra, where, "no lump outside the directory (%s)" % extra)
        mem = {x["n"] for x in P.rec(T)["fields"]}
        missing = mem - {m for m in spec if m}
        ck.ob("all-members", v, not missing, model.loc(P.rec(T)), "every member of %s has a lump (missing %s)" % (T, sorted(missing)))
    for T in sorted(fmts):
        ck.ob("one-source", T, T not in wbad, model.loc(wf), "; ".join(wbad.get(T, [])) or "each lump is written once from one member")
    # the header layout chosen by the reader
    q2 = {v["ident"] for v in V.values() if v["version"] is not None}
    q1 = {v["ident"] for v in V.values() if v["version"] is None}
    ck.ob("header-choice", "q2", hdr.get("q2_dheader_t", set()) and hdr["q2_dheader_t"] <= q2 | {"other"} and q2 <= hdr["q2_dheader_t"], model.loc(rf),
          "Quake II directory is parsed for %s" % sorted(hdr.get("q2_dheader_t", ()), key=str))
    ck.ob("header-choice", "q1", hdr.get("dheader_t", set()) >= q1 and not (hdr.get("dheader_t", set()) & q2), model.loc(rf),
          "Quake directory is parsed for %s" % sorted(hdr.get("dheader_t", ()), key=str))
    for h, n in (("dheader_t", len(Q1)), ("q2_dheader_t", len(Q2))):
        t = {x["n"]: x for x in P.rec(h)["fields"]}
        ck.ob("directory-size", h, ("<lump_t, %d>" % n) in t["lumps"]["t"] or "lump_t[%d]" % n in t["lumps"]["t"], model.loc(P.rec(h)), "%d entries" % n)
    conversions(ck, P, V, G, load_t)
    lump_writers(ck, P)
    file_writer(ck, P, V, G, WB, wreach, wf)
    bspx(ck, P)
    bspx_written(ck, P, WB, wf)
    bspx_reader(ck, P)
    lump_readers(ck, P)
    ck.floor("read", 50)
    ck.floor("write", 50)
    ck.floor("lump-writer", 20)
    ck.floor("lump-reader", 20)


def conversions(ck, P, V, G, load_t):
    """ConvertBSPFormat gives each version the structure the loader gives it."""
    f = P.fn("ConvertBSPFormat")
    B = cfg.Builder(P, inline=lambda g, c, d: not g["n"].startswith(("logging::",)) and "ConvertGeneric" not in g["n"] and "ToGeneric" not in g["n"] and "CopyArray" not in g["n"],
                    max_depth=4).build(f)
    tp = B.frame0.map[f["params"][1]["id"]]
    terms, derived = version_terms(dict(V, bspver_generic={"game": None, "version": None}), G, keep=lambda e: e.get("k") == "Ref" and e.get("id") == tp)
    VS = VSets(B, terms, derived=derived)
    got = {}
    for n in B.nodes:
        e = n.ast
        if n.i in VS.at and n.kind == "ev" and e is not None and e.get("k") == "Call" and "ConvertGeneric" in e.get("n", ""):
            for v in VS.at[n.i]["version"]:
                got.setdefault(v, set()).add(bt(e["t"]))
    for v in sorted(V):
        ck.ob("convert-target", v, got.get(v) == {load_t.get(v)}, model.loc(f), "converting to %s builds %s, loading it builds %s" % (v, sorted(got.get(v, ())), load_t.get(v)))


def data_writes(e, streams):
    """classify a stream operation: 'data', 'pad', 'tell', None"""
    if e.get("k") != "Call":
        return None
    m = e.get("n", "").split("::")[-1]
    if m == "tellp":
        return "tell"
    if e.get("op") == "<=" and len(e.get("args", ())) == 2:
        return "pad" if bt(e["args"][1].get("t", "")) == "padding_n" else "data"
    if m in ("write", "put") and e.get("obj") is not None and "stream" in e["obj"].get("t", ""):
        return "data"
    if m == "stream_write":
        return "data"
    return None


def lump_writers(ck, P):
    for f in P.named("bspfile_t::write_lump"):
        if elem(f["params"][1]["t"])[0] == "none":
            continue
        key = "write_lump(%s)" % elem(f["params"][1]["t"])[1]
        B = cfg.Builder(P, inline=lambda g, c, d: not g["n"].startswith("logging::") and g["n"].split("::")[-1] not in ("operator<=", "stream_write"), max_depth=4).build(f)
        ck.ob("lump-writer", key, *walk_writer(P, B, f))


def tells(e):
    return [x for x in model.walk(e) if x.get("k") == "Call" and x.get("n", "").split("::")[-1] == "tellp"]


def walk_writer(P, B, f):
    """Abstract interpretation. Position values: ('pos', phase) with phase counting data writes so far (0, 1=some)
    state: (phase, padded, {var: abstract}, ofs, len)"""
    reach = cfg.reachable(B)
    pid = B.frame0.map[f["params"][1]["id"]]
    start = ("s", 0, False, (), None, None)
    seen = set()
    todo = [(B.entry.i, start)]
    errs = set()
    ends = 0
    # data must be the parameter
    for n in B.nodes:
        e = n.ast
        if n.i in reach and n.kind == "ev" and e is not None:
            c = data_writes(e, None)
            if c == "data":
                src = e["args"][1] if e.get("op") == "<=" else e["args"][0] if e.get("n", "").split("::")[-1] in ("write", "put") else e.get("obj")
                if not derives(B, src, pid):
                    errs.add("writes %s, not the lump's data" % model.path(src))
                if e.get("op") == "<=":
                    L = loops.loops_of(B, n.i)
                    if L:
                        ok, why = loops.covers(B, n)
                        if not ok:
                            errs.add("an element may be skipped: %s" % why)
                if e.get("n", "").split("::")[-1] == "write":
                    if not whole_write(e):
                        errs.add("writes %s bytes" % model.path(e["args"][1]))
    while todo and len(seen) < 20000:
        i, st = todo.pop()
        if (i, st) in seen:
            continue
        seen.add((i, st))
        n = B.nodes[i]
        if n is B.exit:
            ends += 1
            _, phase, padded, vs, ofs, ln = st
            if ofs != 0:
                errs.add("the offset is not taken before the data (%s)" % (ofs,))
            if ln != "data":
                errs.add("the length is not the number of data bytes (%s)" % (ln,))
            continue
        st2 = st
        e = n.ast
        if n.kind == "ev" and e is not None:
            st2 = step(B, e, st, errs)
        for s, l in n.succ:
            if l in ("throw", "noreturn", "exc"):
                continue
            st3 = st2
            if n.kind == "br":
                # length % 4: padding needed exactly when non-zero
                pol, x = padtest(B, n.ast, dict(st2[3]))
                if x is not None:
                    need = (l is True) == pol
                    st3 = st2[:2] + (("need" if need else "none") if st2[2] is False else st2[2],) + st2[3:]
            todo.append((s, st3))
    if ends == 0:
        errs.add("no path returns")
    for i, st in seen:
        if B.nodes[i] is B.exit and st[2] not in ("none", "done"):
            errs.add("the lump is not padded to a multiple of four (%s)" % st[2])
    return (not errs, model.loc(f), "; ".join(sorted(errs)) or "offset, data, length, padding in order on %d paths" % ends)


def absval(B, e, vs, phase):
    e = strip(e)
    if e is None:
        return None
    k = e.get("k")
    if k == "Call" and e.get("n", "").split("::")[-1] == "tellp":
        return ("pos", phase)
    if k == "Call" and e.get("n", "").split("::")[-1].startswith("operator ") and e.get("obj") is not None:
        return absval(B, e["obj"], vs, phase)
    if k == "Ref" and e.get("id") in vs:
        return vs[e["id"]]
    if k == "Member" and e.get("f") in ("fileofs", "filelen"):
        return vs.get(e["f"])
    if (k == "Bin" and e["op"] == "-") or (k == "Call" and e.get("op") == "-" and len(e.get("args", ())) == 2):
        a, b = (e["a"], e["b"]) if k == "Bin" else e["args"]
        a, b = absval(B, a, vs, phase), absval(B, b, vs, phase)
        if a and b and a[0] == "pos" and b[0] == "pos":
            return ("len", a[1], b[1])
    if k == "Construct" and len(e.get("args", ())) >= 1:
        return absval(B, e["args"][0], vs, phase)
    if k == "Init" and len(e.get("c", ())) == 1:
        return absval(B, e["c"][0], vs, phase)
    return None


def step(B, e, st, errs):
    _, phase, padded, vs, ofs, ln = st
    d = dict(vs)
    k = e.get("k")
    c = data_writes(e, None)
    if c == "data":
        if padded in ("done",):
            errs.add("data is written after the padding")
        phase = 1
    elif c == "pad":
        a = strip(e["args"][1])
        if padded != "need":
            errs.add("padding is written when none is due (or twice)")
        else:
            x = a
            while x.get("k") == "Construct" and x.get("args"):
                x = strip(x["args"][0])
            if x.get("k") == "Init":
                x = strip(x["c"][0])
            ok = x.get("k") == "Bin" and x["op"] == "-" and cfg.cval(x["a"]) == 4 and modfour(B, x["b"], d)
            if not ok:
                errs.add("pads by %s" % model.path(x))
        padded = "done"
        phase = 2
    elif k == "Var":
        v = absval(B, e.get("init"), d, phase)
        if v is not None:
            d[e["id"]] = v
    dst = src = None
    if k == "Bin" and e["op"] == "=":
        dst, src = strip(e["a"]), e["b"]
    elif k == "Call" and e.get("op") == "=" and len(e.get("args", ())) == 2:
        dst, src = strip(e["args"][0]), e["args"][1]
    if dst is not None:
        v = absval(B, src, d, phase)
        if dst.get("k") == "Ref":
            if v is None:
                d.pop(dst.get("id"), None)
            else:
                d[dst["id"]] = v
        elif dst.get("k") == "Member" and dst["f"] == "fileofs":
            ofs = v[1] if v and v[0] == "pos" else "unknown"
            d["fileofs"] = v
        elif dst.get("k") == "Member" and dst["f"] == "filelen":
            d["filelen"] = v
            ln = "data" if v and v[0] == "len" and v[2] == 0 and (v[1] == 1 and phase == 1 or phase == 0 and v[1] == 0) else "wrong"
            if v is None:
                ln = "unknown value " + model.path(src)
    return ("s", phase, padded, tuple(sorted(d.items(), key=str)), ofs, ln)


def modfour(B, e, d):
    e = strip(e)
    if e.get("k") == "Bin" and (e["op"] == "%" and cfg.cval(e["b"]) == 4 or e["op"] == "&" and cfg.cval(e["b"]) == 3):
        v = absval(B, e["a"], d, None)
        return v is not None and v[0] in ("len", "pos") or is_size(e["a"])
    return False


def is_size(e):
    e = strip(e)
    return e.get("k") == "Call" and e.get("n", "").split("::")[-1] == "size" or e.get("k") == "Member" and e.get("f") == "filelen"


def padtest(B, e, d):
    e = strip(e)
    pol = True
    while e.get("k") == "Un" and e["op"] == "!":
        e, pol = strip(e["e"]), not pol
    if e.get("k") == "Bin" and e["op"] in ("!=", "==", ">") and cfg.cval(e["b"]) == 0:
        if e["op"] == "==":
            pol = not pol
        e = strip(e["a"])
    if modfour(B, e, d):
        return pol, e
    return pol, None


def derives(B, e, pid):
    """the written value comes from parameter pid (directly, or as an element of it)"""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        for y in model.walk(x):
            if y.get("k") == "Ref" and "id" in y:
                if y["id"] == pid:
                    return True
                if y["id"] in seen:
                    continue
                seen.add(y["id"])
                for n in B.nodes:
                    a = n.ast
                    if a is None:
                        continue
                    if n.kind == "ev" and a.get("k") == "Var" and a.get("id") == y["id"] and a.get("init"):
                        todo.append(a["init"])
                    elif a.get("k") == "RVar" and a.get("id") == y["id"]:
                        todo.append(a["range"])
    return False


def whole_write(e):
    """write(x.data()/c_str(), x.size() [* sizeof] [+1 for c_str])"""
    p = strip(e["args"][0])
    n = strip(e["args"][1])
    if p.get("k") == "Call" and p.get("n", "").split("::")[-1] in ("data", "c_str"):
        o = model.path(p["obj"])
        plus = 0
        if n.get("k") == "Bin" and n["op"] == "+":
            a, b = strip(n["a"]), strip(n["b"])
            if cfg.cval(a) is not None:
                a, b = b, a
            plus, n = cfg.cval(b), a
        string = "basic_string" in p["obj"].get("t", "")
        return n.get("k") == "Call" and n.get("n", "").split("::")[-1] in ("size", "length") and model.path(n["obj"]) == o and plus == (1 if string else 0)
    return False


def file_writer(ck, P, V, G, B, reach, f):
    """directory reserved first, lumps, extension lumps, then the directory again at offset 0, nothing after."""
    terms, derived = version_terms(V, G)
    VS = VSets(B, terms, derived=derived)
    errs = set()
    seen = set()
    todo = [(B.entry.i, "start", VS.at[B.entry.i]["version"])]
    # product with one version at a time
    for v in sorted(V):
        want = "q2_dheader_t" if V[v]["version"] is not None else "dheader_t"
        VS1 = VSets(B, terms, start={"version": frozenset([v])}, derived=derived)
        todo, seen, fin = [(B.entry.i, "start")], set(), set()
        verr = set()
        while todo:
            i, st = todo.pop()
            if (i, st) in seen or i not in VS1.at:
                continue
            seen.add((i, st))
            n = B.nodes[i]
            if n is B.exit:
                fin.add(st)
                continue
            e = n.ast
            s2 = st
            if n.kind == "ev" and e is not None and e.get("k") == "Call":
                m = e.get("n", "").split("::")[-1]
                if m in ("write_lump",):
                    if st not in ("reserved", "lumps"):
                        verr.add("a lump is written %s" % ("before the directory is reserved" if st in ("start", "open") else "after " + st))
                    s2 = "lumps"
                elif e.get("op") == "<=" and len(e["args"]) == 2:
                    t = bt(e["args"][1].get("t", ""))
                    if t in ("dheader_t", "q2_dheader_t"):
                        if t != want:
                            verr.add("%s is written for %s" % (t, v))
                        s2 = {"start": "reserved", "open": "reserved", "rewound": "final"}.get(st, "wrong:directory after " + st)
                    elif st == "final":
                        verr.add("data is written after the directory")
                    elif st == "rewound":
                        # the extension directory is rewritten in place
                        pass
                elif m == "seekp":
                    a = cfg.cval(strip(e["args"][0])) if e.get("args") else None
                    if a == 0:
                        s2 = "rewound" if st in ("lumps", "reserved", "xdir") else "wrong:rewind after " + st
                    else:
                        s2 = "xdir" if st == "lumps" else st
                elif m == "open" and e.get("obj") is not None and "stream" in e["obj"].get("t", ""):
                    s2 = "open"
            for s, l in n.succ:
                if l in ("throw", "noreturn", "exc"):
                    continue
                if n.kind == "br":
                    if VS1.refine(n.ast, l is True, VS1.at[i]) is None:
                        continue
                todo.append((s, s2))
        ck.ob("file-order", v, fin == {"final"} and not verr, model.loc(f), "; ".join(sorted(verr)) or "ends in %s" % sorted(fin))


def bspx(ck, P):
    f = P.fn("bspfile_t::write_bspx")
    B = cfg.Builder(P, inline=lambda g, c, d: g["n"].split("::")[-1] not in ("operator<=", "stream_write") and not g["n"].startswith("logging"), max_depth=4).build(f)
    reach = cfg.reachable(B)
    evs = [n for n in B.nodes if n.i in reach and n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call"]
    # each entry: filelen = size, fileofs = tellp() before its data, data whole, per entry
    ok, why = {}, {}
    setlen = [n for n in B.nodes if n.i in reach and n.kind == "ev" and asg(n, "filelen")]
    setofs = [n for n in B.nodes if n.i in reach and n.kind == "ev" and asg(n, "fileofs")]
    data = [n for n in evs if n.ast.get("n", "").split("::")[-1] == "write" and "stream" in n.ast["obj"].get("t", "")]
    lumps_w = [n for n in evs if n.ast.get("op") == "<=" and bt(n.ast["args"][1].get("t", "")) == "bspx_lump_t"]
    heads = [n for n in evs if n.ast.get("op") == "<=" and bt(n.ast["args"][1].get("t", "")) == "bspx_header_t"]
    where = model.loc(f)
    for g, what in ((setlen, "length"), (setofs, "offset"), (data, "data")):
        c = [loops.covers(B, n) for n in g]
        ck.ob("bspx", "every-entry:" + what, len(g) == 1 and c[0][0], where, "the %s of every extension lump is set (%s)" % (what, c))
    ck.ob("bspx", "directory-twice", len(lumps_w) == 2 and all(loops.covers(B, n)[0] for n in lumps_w), where, "directory reserved and rewritten, one record per entry")
    ck.ob("bspx", "header", len(heads) == 1, where, "one header")
    bspx_name(ck, P, B, where)
    if setlen and data and setofs:
        src = strip(asg(setlen[0], "filelen"))
        while src.get("k") == "Init":
            src = strip(src["c"][0])
        ck.ob("bspx", "length-is-size", src.get("k") == "Call" and src["n"].split("::")[-1] == "size" and whole_write(data[0].ast)
              and model.path(src["obj"]) == model.path(strip(data[0].ast["args"][0])["obj"]), where, "recorded length is the number of bytes written")
        src = asg(setofs[0], "fileofs")
        reachd = loops.reach_from(B, [s for s, l in setofs[0].succ], stop={h for h in loops.loops_of(B, setofs[0].i)})
        ck.ob("bspx", "offset-before-data", bool(tells(src)) and data[0].i in reachd, where, "offset is the position at which the data starts")
        ck.ob("bspx", "name", any(n.ast.get("n", "").split("::")[-1] in ("memcpy", "strncpy", "copy", "copy_n", "snprintf", "strlcpy", "q_strlcpy") and loops.covers(B, n)[0] for n in evs) or
              any(asg(n, "lumpname") for n in B.nodes if n.kind == "ev"), where, "the entry's name is stored")


# ------------------------------------------------------------------ the extension directory, both directions

def short(e):
    return (e.get("n") or "").split("::")[-1]


def emptytest(B, e, depth=0):
    """(polarity) when e is true exactly when the set of extension lumps is empty (True) / not empty (False)"""
    e = strip(e)
    if depth > 6 or e is None:
        return None
    if e.get("k") == "Un" and e["op"] == "!":
        r = emptytest(B, e["e"], depth + 1)
        return None if r is None else not r
    if e.get("k") == "Call" and e.get("op") == "!" and e.get("args"):
        r = emptytest(B, e["args"][0], depth + 1)
        return None if r is None else not r
    if e.get("k") == "Call" and e.get("obj") is not None and "entries" in model.path(e["obj"]):
        return {"empty": True, "size": False}.get(short(e))
    if e.get("k") == "Bin" and e["op"] in ("==", "!=", ">", ">=", "<", "<="):
        a, b, op = strip(e["a"]), strip(e["b"]), e["op"]
        if cfg.cval(a) is not None:
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        c = cfg.cval(b)
        if c is not None and emptytest(B, a, depth + 1) is False:
            return {("==", 0): True, ("!=", 0): False, (">", 0): False, (">=", 1): False, ("<", 1): True, ("<=", 0): True}.get((op, c))
        if op in ("==", "!=") and "entries" in model.path(a) and {short(x) for x in (a, b)} <= {"begin", "end", "cbegin", "cend"}:
            return op == "=="
    if e.get("k") == "Ref":
        r = resolve(B, e)
        if r is not e and r.get("k") not in ("Ref", "alts"):
            return emptytest(B, r, depth + 1)
    return None


def linear(B, e, depth=0):
    """{term: coefficient} of a sum; terms are paths, None the constant"""
    e = strip(e)
    while e is not None and e.get("k") in ("Cast", "Init", "Construct") and depth < 40:
        c = e.get("e") if e["k"] == "Cast" else (e.get("c") or e.get("args") or [None])[0]
        if c is None:
            break
        e = strip(c)
        depth += 1
    v = cfg.cval(e)
    if v is not None:
        return {None: v}
    op = e.get("op") if e.get("k") in ("Bin", "Call") else None
    if op in ("+", "-") and depth < 40:
        a, b = (e["a"], e["b"]) if e["k"] == "Bin" else (e["args"] if len(e.get("args", ())) == 2 else (e.get("obj"), (e.get("args") or [None])[0]))
        if a is not None and b is not None:
            x, y = linear(B, a, depth + 1), linear(B, b, depth + 1)
            out = dict(x)
            for t, c in y.items():
                out[t] = out.get(t, 0) + (c if op == "+" else -c)
            return {t: c for t, c in out.items() if c}
    if e.get("k") == "Call" and short(e) in ("next", "prev") and len(e.get("args", ())) == 2:
        x, y = linear(B, e["args"][0], depth + 1), linear(B, e["args"][1], depth + 1)
        for t, c in y.items():
            x[t] = x.get(t, 0) + (c if short(e) == "next" else -c)
        return {t: c for t, c in x.items() if c}
    if e.get("k") == "Ref" and depth < 40:
        r = resolve(B, e)
        if r is not e and r.get("k") not in ("Ref", "alts"):
            return linear(B, r, depth + 1)
    return {model.path(e): 1}


def numeric(B, e, leaf, depth=0):
    """value of e with leaf(e) giving the values of its free terms; None when it cannot be computed"""
    e = strip(e)
    if e is None or depth > 30:
        return None
    v = leaf(e)
    if v is not None:
        return v
    v = cfg.cval(e)
    if v is not None:
        return v
    k = e.get("k")
    if k == "Cast":
        return numeric(B, e["e"], leaf, depth + 1)
    if k in ("Init", "Construct"):
        c = e.get("c") or e.get("args") or []
        return numeric(B, c[0], leaf, depth + 1) if len(c) == 1 else None
    if k == "Un":
        a = numeric(B, e["e"], leaf, depth + 1)
        return None if a is None else {"~": ~a, "-": -a, "+": a, "!": int(not a)}.get(e["op"])
    if k == "Cond":
        a = numeric(B, e["c"], leaf, depth + 1)
        return None if a is None else numeric(B, e["a"] if a else e["b"], leaf, depth + 1)
    if k == "Bin":
        a, b = numeric(B, e["a"], leaf, depth + 1), numeric(B, e["b"], leaf, depth + 1)
        if a is None or b is None:
            return None
        o = e["op"]
        if o in ("/", "%") and b == 0:
            return None
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b, "&": lambda: a & b, "|": lambda: a | b,
             "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b, "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b),
             ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b)}.get(o)
        return f() if f else None
    if k == "Call" and short(e) in ("min", "max") and len(e.get("args", ())) >= 2:
        a = [numeric(B, x, leaf, depth + 1) for x in e["args"][:2]]
        return None if None in a else {"min": min, "max": max}[short(e)](a)
    return None


def bspx_written(ck, P, B, f):
    """the extension directory is left out only when there is nothing to put in it"""
    reach = cfg.reachable(B)
    is_head = lambda n: n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and n.ast.get("op") == "<=" and len(n.ast.get("args", ())) == 2 \
        and bt(n.ast["args"][1].get("t", "")) == "bspx_header_t"
    heads = [n for n in B.nodes if n.i in reach and is_head(n)]
    seen, todo, bad = set(), [B.entry.i], False
    while todo:
        i = todo.pop()
        if i in seen or i not in reach:
            continue
        seen.add(i)
        n = B.nodes[i]
        if n is B.exit:
            bad = True
            continue
        if is_head(n):
            continue
        for s, l in n.succ:
            if l in ("throw", "noreturn", "exc"):
                continue
            if n.kind == "br" and n.ast is not None:
                p = emptytest(B, n.ast)
                if p is not None and (l is True) == p:
                    continue
            todo.append(s)
    ck.ob("bspx", "written-when-any", bool(heads) and not bad, model.loc(f), "the extension directory is written whenever there is an extension lump")
    # identification
    for fld in ("ident", "version"):
        vals = []
        for n in B.nodes:
            if n.i not in reach or n.kind != "ev" or n.ast is None:
                continue
            e = n.ast
            d = e.get("a") if e.get("k") == "Bin" and e["op"] == "=" else e["args"][0] if e.get("k") == "Call" and e.get("op") == "=" and len(e.get("args", ())) == 2 else None
            d = strip(d) if d is not None else None
            if d is not None and d.get("k") == "Member" and d.get("f") == fld and (d.get("cls") or bt((d.get("base") or {}).get("t", ""))) in ("dheader_t", "q2_dheader_t"):
                src = e["b"] if e.get("k") == "Bin" else e["args"][1]
                r = resolve(B, src)
                vals.append((n, any(x.get("k") == "Member" and x.get("f") == fld and (x.get("cls") or "") == "bspversion_t" for y in (r.get("alts") or [r]) for x in model.walk(y))))
        ck.ob("ident", "stored-" + fld, bool(vals) and all(ok for n, ok in vals), vals[0][0].loc() if vals else model.loc(f),
              "the header's %s is that of the version being written" % fld)


def bspx_name(ck, P, B, where):
    """a name of up to 23 characters is stored whole"""
    for n in B.nodes:
        e = n.ast
        if n.kind != "ev" or e is None or e.get("k") != "Call" or short(e) not in ("memcpy", "strncpy", "copy_n", "memmove") or len(e.get("args", ())) != 3:
            continue
        if not any(x.get("k") == "Member" and x.get("f") == "lumpname" for a in e["args"] for x in model.walk(a)):
            continue
        size = e["args"][2] if short(e) != "copy_n" else e["args"][1]
        bad = None
        for s in range(0, 40):
            def leaf(x):
                if x.get("k") == "Call" and short(x) in ("size", "length", "strlen"):
                    return 24 if "lumpname" in model.path(x) else s
                return None
            v = numeric(B, resolve(B, size), leaf)
            if v is not None and (v < min(s, 23) or v > 24):
                bad = (s, v)
                break
        ck.ob("bspx", "name-whole", bad is None, n.loc() or where, "every name of up to 23 characters is stored whole (%s)" % ("length %d stores %d" % bad if bad else "exact"))


def bspx_reader(ck, P):
    f = P.fn("LoadBSPFile")
    skip = ("operator>=", "operator<=", "stream_read", "transfer", "read", "load", "resolveArchivePath", "BSPVersionSupported", "isHexen2")
    B = cfg.Builder(P, inline=lambda g, c, d: short(g) not in skip and not g["n"].startswith("logging") and "Read" not in short(g), max_depth=4).build(f)
    reach = cfg.reachable(B)
    where = model.loc(f)
    evs = [n for n in B.nodes if n.i in reach and n.kind == "ev" and n.ast is not None]
    rd = lambda n, t: n.ast.get("k") == "Call" and (n.ast.get("op") == ">=" and len(n.ast.get("args", ())) == 2 and bt(n.ast["args"][1].get("t", "")) == t
                                                    or short(n.ast) == "stream_read" and n.ast.get("obj") is not None and bt(n.ast["obj"].get("t", "")) == t)
    heads = [n for n in evs if rd(n, "bspx_header_t")]
    recs = [n for n in evs if rd(n, "bspx_lump_t")]
    ck.ob("bspx-read", "header", len(heads) == 1, where, "the extension header is read")
    ck.ob("bspx-read", "records", len(recs) == 1 and bool(loops.loops_of(B, recs[0].i)), where, "directory records are read in a loop")
    if len(heads) != 1 or len(recs) != 1:
        return
    pred = loops.preds(B)
    # the position: the last seek before the header
    seeks, seen, todo = [], set(), [heads[0].i]
    while todo:
        i = todo.pop()
        for p in pred[i]:
            p = p[0] if isinstance(p, tuple) else p
            if p in seen or p not in reach:
                continue
            seen.add(p)
            n = B.nodes[p]
            if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and short(n.ast) == "seekg":
                seeks.append(n)
                continue
            todo.append(p)
    ck.ob("bspx-read", "seek", len(seeks) == 1, heads[0].loc(), "one position is sought before the header is read")
    if len(seeks) == 1:
        bspx_position(ck, B, reach, seeks[0])
    # each record leads to a stored lump, or to a message
    R = recs[0]
    h = loops.loops_of(B, R.i)[0]
    bd = loops.body(B, h)
    stores = {n.i for n in evs if n.i in bd and n.ast.get("k") == "Call" and (short(n.ast) in ("transfer", "insert_or_assign") or n.ast.get("op") == "=" and
              n.ast.get("args") and "entries" in model.path(n.ast["args"][0]))}
    says = {n.i for n in evs if n.ast.get("k") == "Call" and (n.ast.get("n", "").startswith("logging::") or short(n.ast) in ("Error", "FError"))}
    r = loops.reach_from(B, [s for s, l in R.succ], stop=stores | says)
    ck.ob("bspx-read", "every-record", bool(stores) and h not in r, R.loc(), "a directory record is stored or complained about, never passed over in silence")
    H = B.nodes[h]
    ok, why = True, ""
    for i in bd:
        b = B.nodes[i]
        if b.kind != "br" or b.ast is None:
            continue
        out = [s for s, l in b.succ if s not in bd]
        if out and i not in loops.reach_from(B, [s for s, l in R.succ], stop={h}):
            # the loop's own test, before the record is read
            c = strip(b.ast)
            if c.get("k") == "Bin" and any(x.get("k") == "Member" and x.get("f") == "numlumps" for y in (c["a"], c["b"]) for z in [resolve(B, y)] for w in (z.get("alts") or [z]) for x in model.walk(w)):
                k0 = [numeric(B, resolve(B, y), lambda x: 5 if x.get("k") == "Member" and x.get("f") == "numlumps" else None) for y in (c["a"], c["b"])]
                v = [k for k in k0 if k is not None]
                if v and v[-1] != 5:
                    ok, why = False, "stops at %s" % model.path(c)
    ck.ob("bspx-read", "count", ok, R.loc(), why or "as many records as the header announces")
    # range
    for n in evs:
        e = n.ast
        if n.i not in bd:
            continue
        rng = None
        if e.get("k") == "Construct" and (e.get("cls") or "").startswith("std::vector<unsigned char") and len(e.get("args", ())) >= 2 or \
                e.get("k") == "Call" and short(e) == "assign" and len(e.get("args", ())) == 2:
            a, b = linear(B, e["args"][0]), linear(B, e["args"][1])
            d = dict(b)
            for t, c in a.items():
                d[t] = d.get(t, 0) - c
            rng = {t: c for t, c in d.items() if c}, a
        if rng and any(t and ("fileofs" in t or "filelen" in t) for r in rng for t in r):
            ln, st = rng
            okl = len(ln) == 1 and list(ln)[0] is not None and list(ln)[0].endswith(".filelen") and list(ln.values()) == [1]
            oks = [(t, c) for t, c in st.items() if t is None or t.endswith(".fileofs")]
            ck.ob("bspx-read", "range", okl and len(oks) == 1 and oks[0][0] is not None and oks[0][1] == 1 and len(st) == 2, n.loc(),
                  "the lump is its filelen bytes from fileofs on (length %s, start %s)" % (fmt(ln), fmt(st)))
    # storing
    for g in P.named("bspdata_t::bspxentries::transfer"):
        BT = cfg.Builder(P, inline=lambda g2, c, d: False, max_depth=2).build(g)
        rt = cfg.reachable(BT)
        sets = set()
        for n in BT.nodes:
            e = n.ast
            if n.i in rt and n.kind == "ev" and e is not None and e.get("k") == "Call":
                if short(e) == "insert_or_assign" or e.get("op") == "=" and e.get("args") and "entries" in model.path(e["args"][0]) or short(e) == "transfer":
                    sets.add(n.i)
        r = loops.reach_from(BT, [BT.entry.i], stop=sets)
        ck.ob("bspx", "replaces:" + g["params"][1]["t"].split(">")[-1].strip(), bool(sets) and BT.exit.i not in r, model.loc(g), "a lump replaces the one stored under its name, whatever its size")
    ck.floor("bspx-read", 6)


def fmt(l):
    return " + ".join(("%s*" % c if c != 1 else "") + str(t) if t is not None else str(c) for t, c in sorted(l.items(), key=str)) or "0"


def bspx_position(ck, B, reach, seek):
    """the extension header is sought at the four-byte boundary after the furthest end of any lump"""
    arg = strip(seek.ast["args"][0])
    while arg.get("k") in ("Construct", "Cast", "Init"):
        c = arg.get("e") if arg["k"] == "Cast" else (arg.get("args") or arg.get("c") or [None])[0]
        if c is None:
            break
        arg = strip(c)

    # defining assignments, by variable
    def defs(vid):
        out = []
        for n in B.nodes:
            e = n.ast
            if n.i not in reach or n.kind != "ev" or e is None:
                continue
            if e.get("k") == "Var" and e.get("id") == vid and e.get("init") is not None:
                out.append((n, e["init"]))
            elif e.get("k") == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=") and strip(e["a"]).get("k") == "Ref" and strip(e["a"]).get("id") == vid:
                src = e["b"] if e["op"] == "=" else {"k": "Bin", "op": e["op"][:-1], "a": e["a"], "b": e["b"], "t": e.get("t", "")}
                out.append((n, src))
        return out

    # unfold to the accumulator: variables assigned in a loop over the lumps
    acc, vids, todo = [], set(), [arg]
    outside = []
    while todo:
        x = todo.pop()
        for y in model.walk(x):
            if y.get("k") == "Ref" and "id" in y and y["id"] not in vids:
                vids.add(y["id"])
                for n, src in defs(y["id"]):
                    if any(z.get("k") == "Member" and z.get("f") in ("fileofs", "filelen") for z in model.walk(src)) or loops.loops_of(B, n.i):
                        acc.append((n, y["id"], src))
                    else:
                        outside.append((n, y["id"], src))
                    todo.append(src)
    upd = []
    for n, vid, src in acc:
        if not loops.loops_of(B, n.i):
            continue
        L = linear(B, src)
        if any(z.get("k") == "Ref" and z.get("id") == vid for z in model.walk(src)) or any(z.get("k") == "Member" and z.get("f") in ("filelen",) for z in model.walk(src)) \
                or any(t and t.endswith("filelen") for t in L):
            upd.append((n, vid, src))
    upd = [(n, v, s) for n, v, s in upd if not (strip(s).get("k") == "Bin" and strip(s)["op"] == "+" and cfg.cval(strip(s)["b"]) == 1)]
    upd = [(n, v, s) for n, v, s in upd if n.ast.get("k") != "Var"]
    if not upd:
        return
    # rounding: decided for every residue
    accids = {v for n, v, s in upd}

    def value(e, v, depth=0):
        def leaf(x):
            if x.get("k") == "Ref" and "id" in x:
                if x["id"] in accids:
                    o = [s for n, vid, s in outside if vid == x["id"] and any(z.get("k") == "Ref" and z.get("id") == vid for z in model.walk(s))]
                    return v
                ds = [s for n, vid, s in outside if vid == x["id"]]
                if len(ds) == 1 and depth < 8:
                    return value(ds[0], v, depth + 1)
            return None
        return numeric(B, e, leaf)
    bad = None
    selfs = []
    for n, vid, s in outside:
        if vid in accids and any(z.get("k") == "Ref" and z.get("id") in accids for z in model.walk(s)):
            conds = []
            for b in B.nodes:
                if b.i in reach and b.kind == "br" and b.ast is not None and not loops.loops_of(B, b.i):
                    ls = [l for t, l in b.succ if t == n.i or n.i in loops.reach_from(B, [t])]
                    if len(ls) == 1 and any(z.get("k") == "Ref" and z.get("id") in accids for z in model.walk(b.ast)):
                        conds.append((b, ls[0]))
            selfs.append((n, s, conds))
    for v in range(0, 256):
        w = v
        if len(selfs) > 1:
            break
        if selfs:
            take = True
            for b, l in selfs[0][2]:
                t = value(b.ast, v)
                take = None if t is None or take is None else take and bool(t) == (l is True)
            if take is None:
                break
            if take:
                w = value(selfs[0][1], v)
        w = value(arg, w) if w is not None else None
        if w is not None and w != (v + 3) // 4 * 4:
            bad = (v, w)
            break
    ck.ob("bspx-read", "rounding", bad is None, seek.loc(), "the header is sought at the next multiple of four (%s)" % ("after %d at %d" % bad if bad else "all residues"))
    # the maximum over all lumps
    for n, vid, src in upd:
        s = strip(src)
        while s.get("k") in ("Cast", "Init") and (s.get("e") or s.get("c")):
            s = strip(s.get("e") or s["c"][0])
        selfref = any(z.get("k") == "Ref" and z.get("id") == vid for z in model.walk(s))
        h = loops.loops_of(B, n.i)[0]
        bd = loops.body(B, h)
        cmpself, guards = False, []
        for i in bd:
            b = B.nodes[i]
            if b.kind == "br" and b.ast is not None and strip(b.ast).get("k") == "Bin" and strip(b.ast)["op"] in ("<", ">", "<=", ">=") and \
                    any(z.get("k") == "Ref" and z.get("id") == vid for z in model.walk(b.ast)):
                cmpself = True
            if b.kind == "br" and b.ast is not None and all(t in bd for t, l in b.succ):
                rs = [n.i in loops.reach_from(B, [t], stop={h}) or t == n.i for t, l in b.succ]
                if rs.count(True) == 1:
                    guards.append(b)
        other = [b for b in guards if not any(z.get("k") == "Ref" and z.get("id") == vid for z in model.walk(b.ast)) and not zerotest(b.ast)]
        ck.ob("bspx-read", "furthest", selfref or cmpself, n.loc(), "the furthest end of any lump is kept, not the last one's")
        ck.ob("bspx-read", "all-lumps", not other, n.loc(), "every lump counts (%s)" % ([model.path(b.ast) for b in other] or "no condition"))


def zerotest(e):
    """a test of filelen or fileofs against zero"""
    e = strip(e)
    while e.get("k") in ("Un", "Cast") and (e["k"] == "Cast" or e["op"] == "!"):
        e = strip(e["e"])
    if e.get("k") == "Bin":
        a, b, op = strip(e["a"]), strip(e["b"]), e["op"]
        c = cfg.cval(b)
        if c is None:
            c, a, op = cfg.cval(a), b, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        return a.get("k") == "Member" and a.get("f") in ("filelen", "fileofs") and (op, c) in (("==", 0), ("!=", 0), (">", 0), ("<=", 0), ("<", 1), (">=", 1), ("<", 0), (">=", 0))
    return e.get("k") == "Member" and e.get("f") in ("filelen", "fileofs")


def asg(n, f):
    e = n.ast
    if e is None:
        return None
    if e.get("k") == "Bin" and e["op"] == "=":
        d, s = strip(e["a"]), e["b"]
    elif e.get("k") == "Call" and e.get("op") == "=" and len(e.get("args", ())) == 2:
        d, s = strip(e["args"][0]), e["args"][1]
    else:
        return None
    return s if d.get("k") == "Member" and d.get("f") == f else None


def resolve(B, e, depth=0):
    """substitute locals that have exactly one definition"""
    e = strip(e)
    if depth < 6 and e is not None and e.get("k") == "Ref" and "id" in e:
        defs = []
        for n in B.nodes:
            a = n.ast
            if a is None or n.kind != "ev":
                continue
            if a.get("k") == "Var" and a.get("id") == e["id"] and a.get("init") is not None:
                defs.append(a["init"])
            elif a.get("k") == "Bin" and a["op"] == "=" and strip(a["a"]).get("id") == e["id"] and strip(a["a"]).get("k") == "Ref":
                defs.append(a["b"])
        if defs:
            ps = {model.path(resolve(B, d, depth + 1)) for d in defs}
            if len(ps) == 1:
                return resolve(B, defs[0], depth + 1)
            return {"k": "alts", "alts": [resolve(B, d, depth + 1) for d in defs]}
    return e


def lump_readers(ck, P):
    for f in P.named("lump_reader::read"):
        kind, et = elem(f["params"][1]["t"])
        key = "read(%s)" % et
        B = cfg.Builder(P, inline=lambda g, c, d: g["n"].split("::")[-1] not in ("operator>=", "stream_read") and not g["n"].startswith("logging"), max_depth=4).build(f)
        reach = cfg.reachable(B)
        errs = []
        seeks = [n for n in B.nodes if n.i in reach and n.kind == "ev" and n.ast.get("k") == "Call" and n.ast.get("n", "").split("::")[-1] == "seekg"]
        ops = []
        for n in B.nodes:
            if n.i not in reach or n.kind != "ev" or n.ast is None or n.ast.get("k") != "Call":
                continue
            m = n.ast.get("n", "").split("::")[-1]
            if n.ast.get("op") == ">=" or m == "stream_read" or m == "read" and "stream" in (n.ast.get("obj") or {}).get("t", ""):
                ops.append(n)
        if not ops:
            errs.append("reads nothing")
        good = {n.i for n in seeks if isofs(B, n.ast["args"][0])}
        for n in ops:
            if n.i in loops.reach_from(B, [B.entry.i], stop=good):
                errs.append("%s is not preceded by a seek to the lump's offset" % n.loc())
            e = n.ast
            m = e.get("n", "").split("::")[-1]
            if m == "read":
                x = resolve(B, e["args"][1])
                alts = x["alts"] if x.get("k") == "alts" else [x]
                if not any(model.path(a).endswith("filelen") for a in alts):
                    errs.append("reads %s bytes" % [model.path(a) for a in alts])
            elif e.get("op") == ">=":
                hs = loops.loops_of(B, n.i)
                if not hs:
                    errs.append("one element only")
                else:
                    ok, why = count_ok(B, n, hs[0])
                    if not ok:
                        errs.append(why)
        ck.ob("lump-reader", key, not errs, model.loc(f), "; ".join(errs) or "seek to the lump's offset, then every element")


def isofs(B, e):
    x = resolve(B, e)
    while x.get("k") == "Construct" and x.get("args"):
        x = strip(x["args"][0])
    return x.get("k") == "Member" and x.get("f") == "fileofs"


def count_ok(B, n, h):
    """the loop runs filelen / element size times, or over the resized buffer"""
    ok, why = loops.covers(B, n)
    if not ok:
        return False, "an element may be skipped: %s" % why
    H = B.nodes[h]
    if H.extra and H.extra[0] == "rfor":
        return True, ""
    for i in loops.body(B, h):
        b = B.nodes[i]
        if b.kind == "br" and any(s not in loops.body(B, h) for s, l in b.succ) and b.ast.get("k") == "Bin":
            for side in ("b", "a"):
                x = resolve(B, b.ast[side])
                for a in (x["alts"] if x.get("k") == "alts" else [x]):
                    if a.get("k") == "Bin" and a["op"] == "/" and model.path(a["a"]).endswith("filelen"):
                        return True, ""
                    if a.get("k") == "Call" and a.get("n", "").split("::")[-1] == "size":
                        return True, ""
    return False, "the number of elements is not the lump's length over the element size"
