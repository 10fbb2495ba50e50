"""C01: binary records are written and read with one fixed layout, the published one."""
import cfg, model, ser
from ser import Ser, Auto, equivalent

RULE = ("Each streaming method is turned into an automaton over wire tokens (integer/float, width, member), on the inlined "
        "control-flow graph. Writer and reader automata of every record must accept the same token language with the same member at "
        "each token; every record with a fixed layout must stream each of its data members exactly once and match the published "
        "layout of the format (member order and widths), frozen in this check; and every scalar stream operator must transfer exactly "
        "sizeof(value) bytes, reversed exactly when the stream's byte order differs from the machine's.")

# published layouts: Quake (BSP29/BSP2/2PSB), Hexen II, Quake II (IBSP 38), Qbism, BSPX, PAK/WAD/LIT containers
LEAF1 = "contents:i4 visofs:i4 mins:%s maxs:%s firstmarksurface:%s nummarksurfaces:%s ambient_level:i1x4"
FACE = "planenum:%s side:%s firstedge:i4 numedges:%s texinfo:%s styles:i1x4 lightofs:i4"
LAYOUT = {
    "lump_t": "fileofs:i4 filelen:i4",
    "dheader_t": "ident:i4 lumps:i4x30",
    "q2_dheader_t": "ident:i4 version:i4 lumps:i4x38",
    "dplane_t": "normal:f4x3 dist:f4 type:i4",
    "dmodelq1_t": "mins:f4x3 maxs:f4x3 origin:f4x3 headnode:i4x4 visleafs:i4 firstface:i4 numfaces:i4",
    "dmodelh2_t": "mins:f4x3 maxs:f4x3 origin:f4x3 headnode:i4x8 visleafs:i4 firstface:i4 numfaces:i4",
    "q2_dmodel_t": "mins:f4x3 maxs:f4x3 origin:f4x3 headnode:i4 firstface:i4 numfaces:i4",
    "bsp29_dnode_t": "planenum:i4 children:i2x2 mins:i2x3 maxs:i2x3 firstface:i2 numfaces:i2",
    "bsp2rmq_dnode_t": "planenum:i4 children:i4x2 mins:i2x3 maxs:i2x3 firstface:i4 numfaces:i4",
    "bsp2_dnode_t": "planenum:i4 children:i4x2 mins:f4x3 maxs:f4x3 firstface:i4 numfaces:i4",
    "q2_dnode_t": "planenum:i4 children:i4x2 mins:i2x3 maxs:i2x3 firstface:i2 numfaces:i2",
    "bsp29_dclipnode_t": "planenum:i4 children:i2x2",
    "bsp2_dclipnode_t": "planenum:i4 children:i4x2",
    "texinfo_t": "vecs:f4x8 miptex:i4 flags:i4",
    "q2_texinfo_t": "vecs:f4x8 flags:i4 value:i4 texture:i1x32 nexttexinfo:i4",
    "bsp29_dface_t": FACE % ("i2", "i2", "i2", "i2"),
    "bsp2_dface_t": FACE % ("i4", "i4", "i4", "i4"),
    "q2_dface_t": FACE % ("i2", "i2", "i2", "i2"),
    "q2_dface_qbism_t": FACE % ("i4", "i4", "i4", "i4"),
    "bsp29_dleaf_t": LEAF1 % ("i2x3", "i2x3", "i2", "i2"),
    "bsp2rmq_dleaf_t": LEAF1 % ("i2x3", "i2x3", "i4", "i4"),
    "bsp2_dleaf_t": LEAF1 % ("f4x3", "f4x3", "i4", "i4"),
    "q2_dleaf_t": "contents:i4 cluster:i2 area:i2 mins:i2x3 maxs:i2x3 firstleafface:i2 numleaffaces:i2 firstleafbrush:i2 numleafbrushes:i2",
    "q2_dleaf_qbism_t": "contents:i4 cluster:i4 area:i4 mins:f4x3 maxs:f4x3 firstleafface:i4 numleaffaces:i4 firstleafbrush:i4 numleafbrushes:i4",
    "q2_dbrushside_t": "planenum:i2 texinfo:i2",
    "q2_dbrushside_qbism_t": "planenum:i4 texinfo:i4",
    "dbrush_t": "firstside:i4 numsides:i4 contents:i4",
    "darea_t": "numareaportals:i4 firstareaportal:i4",
    "dareaportal_t": "portalnum:i4 otherarea:i4",
    "dmiptex_t": "name:i1x16 width:i4 height:i4 offsets:i4x4",
    "bspx_header_t": "id:i1x4 numlumps:i4",
    "bspx_lump_t": "lumpname:i1x24 fileofs:i4 filelen:i4",
    "bspx_decoupled_lm_perface": "lmwidth:i2 lmheight:i2 offset:i4 world_to_lm_space:f4x8",
    "bspxfacenormals_per_vert": "normal:i4 tangent:i4 bitangent:i4",
    "qplane3<float>": "normal:f4x3 dist:f4",
    "qvec<float, 3>": "v:f4x3",
    "aabb<float, 3>": "m_corners:f4x6",
    "litheader_t::v1_t": "ident:i1x4 version:i4",
    "litheader_t::v2_t": "numsurfs:i4 lmsamples:i4",
    "fs::pak_archive::pak_header": "magic:i1x4 offset:i4 size:i4",
    "fs::pak_archive::pak_file": "name:i1x56 offset:i4 size:i4",
    "fs::wad_archive::wad_header": "identification:i1x4 numlumps:i4 infotableofs:i4",
    "fs::wad_archive::wad_lump_header": "filepos:i4 disksize:i4 size:i4 type:i1 compression:i1 pad:pad1x2 name:i1x16",
    "wadinfo_t": "identification:i1x4 numlumps:i4 infotableofs:i4",
    "lumpinfo_t": "filepos:i4 disksize:i4 size:i4 type:i1 compression:i1 pad1:i1 pad2:i1 name:i1x16",
    "dvisstate_t": "version:i4 numportals:i4 numleafs:i4 testlevel:i4 time_elapsed:i4",
    "dportal_t": "status:i4 might:i4 vis:i4 nummightsee:i4 numcansee:i4",
    "img::q2_miptex_t": "name:i1x32 width:i4 height:i4 offsets:i4x4 animname:i1x32 flags:i4 contents:i4 value:i4",
    "img::pcx_t": "manufacturer:i1 version:i1 encoding:i1 bits_per_pixel:i1 xmin:i2 ymin:i2 xmax:i2 ymax:i2 hres:i2 vres:i2 palette_reserved:pad1x49 color_planes:i1 bytes_per_line:i2 palette_type:i2 filler:pad1x58",
}
# members that are deliberately not part of the stream
SKIP = {"bspxbrushes_permodel": {"numfaces"}}
# variable-length streams: expected token language written as the sequence of distinct tokens
EMPTY_OK = {"mvis_t"}  # an empty lump stands for "no visibility data"; the loader never reads an empty lump


def parse(s):
    out = []
    for x in s.split():
        n, t = x.split(":")
        c = 1
        if "x" in t:
            t, c = t.split("x")
        k = t.rstrip("0123456789")
        out.append((n, (k, int(t[len(k):])), int(c)))
    return out


def flat(S, toks, d):
    """Expand nested variable-shaped records whose size is fixed (loops over fixed arrays)."""
    out = []
    for t, w in toks:
        if t == ("rec", "texvecf"):
            out += [(("f", 4), w)] * 8
        else:
            out.append((t, w))
    return out


def run(ck):
    P = ck.load("common", "vis", "light", "bsputil", "qbsp", "bspinfo")
    S = Ser(P)
    known = dict(LAYOUT)
    seen = set()
    for cls in sorted(S.methods):
        ms = S.methods[cls]
        f0 = list(ms.values())[0]
        where = model.loc(f0)
        if "stream_data" in ms:
            w = S.straight(cls, "w")
            r = S.straight(cls, "r")
        elif len(ms) < 2:
            continue
        else:
            w, r = S.straight(cls, "w"), S.straight(cls, "r")
            A, B = Auto(S, ms["stream_write"], "w"), Auto(S, ms["stream_read"], "r")
            diffs = equivalent(A, B)
            if cls in EMPTY_OK:
                diffs = [d for d in diffs if not d.startswith("after [] the writer may end")]
            ck.ob("symmetric", cls, not diffs, where, "; ".join(diffs[:3]) or "writer and reader accept the same tokens in the same members")
            ck.count("stream_operations", len(A.ops) + len(B.ops))
        if w is None or r is None:
            # variable-length: every data member must at least be touched by both directions
            for fd in P.rec(cls)["fields"]:
                if fd["n"] in SKIP.get(cls, ()) or cls in ("dmiptexlump_t", "miptex_t") or "stream_write" not in ms:
                    continue
                for d, g in (("w", ms["stream_write"]), ("r", ms["stream_read"])):
                    used = any(x.get("k") == "Member" and x.get("f") == fd["n"] for x in model.fn_nodes(g))
                    ck.ob("complete", "%s.%s:%s" % (cls, fd["n"], d), used, model.loc(g), "member must take part in the stream")
            if cls in ("texvecf",):
                fixed_matrix(ck, S, cls, ms)
            continue
        w = flat(S, w, "w")
        # completeness
        R = P.rec(cls)
        names = [x for x in dict.fromkeys(m for t, m in w)]
        for fd in R["fields"]:
            if fd["n"] in SKIP.get(cls, ()) or cls == "miptex_t":  # miptex_t streams its raw data member as one blob
                continue
            have = [i for i, (t, m) in enumerate(w) if m and m.split(".")[0] == fd["n"]]
            contiguous = bool(have) and have == list(range(have[0], have[-1] + 1))
            size = sum(w[i][0][1] for i in have)
            ck.ob("complete", "%s.%s" % (cls, fd["n"]), contiguous and size >= min(fd["size"], size if fd["t"].startswith("padding") else fd["size"]) , where,
                  "member of %d bytes must be streamed once, whole (%d bytes streamed)" % (fd["size"], size))
        # published layout
        if cls in known:
            seen.add(cls)
            exp = parse(known[cls])
            pos, bad = 0, []
            members = {fd["n"] for fd in R["fields"]}
            for n, t, c in exp:
                got = w[pos:pos + c]
                pos += c
                if [x for x, m in got] != [t] * c:
                    bad.append("%s: expected %d x %s%d, found %s" % (n, c, t[0], t[1], [x for x, m in got][:4]))
                elif n in members and any(m is not None and m.split(".")[0] != n for x, m in got):
                    bad.append("%s: %s is streamed in its place" % (n, sorted({m for x, m in got})))
            if pos != len(w):
                bad.append("%d tokens, %d expected" % (len(w), pos))
            ck.ob("published-layout", cls, not bad, where, "; ".join(bad[:3]) or known[cls])
    missing = [c for c in known if c not in seen and c in P.recs]
    for c in missing:
        ck.ob("published-layout", c, False, model.loc(P.rec(c)), "record no longer has a fixed stream layout")
    if len([c for c in known if c in seen]) < 45:
        raise model.AnalysisBroken("only %d of the %d known records were found" % (len(seen), len(known)))
    scalars(ck, P)
    ck.floor("symmetric", 20)
    ck.floor("complete", 80)
    ck.floor("scalar-operator", 14)


def fixed_matrix(ck, S, cls, ms):
    """texvecf: 2 rows of 4 floats, written and read row by row."""
    for d, g in (("w", ms["stream_write"]), ("r", ms["stream_read"])):
        lits = [x for x in model.fn_nodes(g) if x.get("k") == "Bin" and x["op"] == "<"]
        bounds = [cfg.cval(x["b"]) for x in lits]
        starts = [cfg.cval(v["init"]) for x in model.fn_nodes(g) if x.get("k") == "Var" and x.get("t") in ("size_t", "int", "unsigned long") for v in [x] if v.get("init")]
        A = Auto(S, g, d)
        idx = []
        for n in A.ops:
            for x in model.walk(n.ast):
                if x.get("k") == "Call" and x.get("n", "").split("::")[-1] in ("at", "operator()"):
                    idx.append([model.path(model.strip(a)) for a in (x["args"] if x.get("obj") is not None else x["args"][1:])])
        ok = bounds in ([2, 4], []) or sorted(b for b in bounds if b is not None) in ([2, 4],)
        toks = {t for v in A.toks.values() for t, w in v}
        ck.ob("matrix", "%s:%s" % (cls, d), ok and toks == {("f", 4)}, model.loc(g), "2x4 floats row by row (loop bounds %s, tokens %s)" % (bounds, sorted(toks)))


ARITH = dict(ser.INTW)
ARITH.update(ser.FLTW)


def scalars(ck, P):
    """Every scalar operator<= / operator>= moves sizeof(T) bytes of its argument and swaps iff needed."""
    for f in sorted(P.fns.values(), key=lambda f: f["l"]):
        n = f["n"].split("::")[-1]
        if n not in ("operator<=", "operator>=") or len(f["params"]) != 2 or not ser.is_stream(f["params"][0]["t"]):
            continue
        t = ser.bt(f["params"][1]["t"])
        if t not in ARITH:
            continue
        w = n == "operator<="
        B = cfg.Builder(P, inline=lambda g, c, d: g["n"].split("::")[-1] not in ("need_swap", "write_swapped", "read_swapped"), max_depth=3).build(f)
        pid = B.frame0.map[f["params"][1]["id"]]
        reach = cfg.reachable(B)
        # walk all acyclic paths: condition on need_swap, then exactly one transfer
        bad = []
        todo = [(B.entry.i, None, 0, None)]
        npaths = 0
        while todo:
            i, swap, moved, how = todo.pop()
            nd = B.nodes[i]
            if nd is B.exit:
                npaths += 1
                if moved != 1:
                    bad.append("a path transfers the value %d times" % moved)
                elif ARITH[t] > 1 and (swap is None or (how == "swapped") != swap):
                    bad.append("byte order %s when need_swap is %s" % (how, swap))
                elif ARITH[t] == 1 and swap is not None:
                    pass
                continue
            e = nd.ast
            if nd.kind == "ev" and e.get("k") == "Call":
                m = e.get("n", "").split("::")[-1]
                if m in (("write",) if w else ("read",)) and e.get("obj") is not None and len(e["args"]) == 2:
                    p = model.strip(e["args"][0])
                    while p.get("k") in ("Cast",):
                        p = p["e"]
                    ref = model.strip(p["e"]) if p.get("k") == "Un" and p["op"] == "&" else None
                    if ref is None or ref.get("id") != pid or cfg.cval(e["args"][1]) != ARITH[t]:
                        bad.append("transfers %s, %s bytes" % (model.path(e["args"][0]), model.path(e["args"][1])))
                    moved, how = moved + 1, "native"
                elif m in ("write_swapped", "read_swapped"):
                    if model.strip(e["args"][1]).get("id") != pid or m.startswith("write") != w:
                        bad.append("swaps the wrong value")
                    moved, how = moved + 1, "swapped"
                elif m == "put" and w and len(e["args"]) == 1 and ARITH[t] == 1:
                    moved, how = moved + 1, "native"
            if nd.kind == "br":
                pol = need_swap_cond(e)
                for s, l in nd.succ:
                    todo.append((s, swap if pol is None else (l is True) == pol, moved, how))
                continue
            for s, l in nd.succ:
                if l not in ("throw", "noreturn", "exc"):
                    todo.append((s, swap, moved, how))
        ck.ob("scalar-operator", "%s(%s)" % (n, t), not bad and npaths > 0, model.loc(f), "; ".join(sorted(set(bad))) or "%d paths, %d bytes each" % (npaths, ARITH[t]))
    # the swapping helpers move every byte, last to first
    for f in P.fns.values():
        m = f["n"].split("::")[-1]
        if m not in ("write_swapped", "read_swapped"):
            continue
        t = ser.bt(f["params"][1]["t"])
        fors = [x for x in model.fn_nodes(f) if x.get("k") == "For"]
        ok, why = False, "loop not recognised"
        if len(fors) == 1:
            l = fors[0]
            v = [x for x in model.walk(l["init"]) if x.get("k") == "Var"]
            c = l["cond"]
            inc = model.strip(l["inc"])
            st = [x for x in model.walk(l["body"]) if x.get("k") == "Call" and x.get("n", "").split("::")[-1] in ("write", "read", "put", "get")]
            ok = (len(v) == 1 and cfg.cval(v[0]["init"]) == ARITH.get(t, -1) - 1 and c.get("k") == "Bin" and c["op"] == ">=" and cfg.cval(c["b"]) == 0
                  and inc.get("k") == "Un" and inc["op"] in ("--", "p--") and len(st) == 1 and cfg.cval(st[0]["args"][1]) == 1)
            if not ok and len(v) == 1 and c.get("k") == "Bin":
                # forward loop over mirrored index
                ok = cfg.cval(v[0]["init"]) == 0 and c["op"] in ("<", "!=") and cfg.cval(c["b"]) == ARITH.get(t, -1) and len(st) == 1 and cfg.cval(st[0]["args"][1]) == 1
            why = "moves %s bytes from the last to the first" % ARITH.get(t)
        ck.ob("swap-helper", "%s<%s>" % (m, t), ok, model.loc(f), why)


def need_swap_cond(e):
    """polarity of a need_swap test, or None"""
    pol = True
    e = model.strip(e)
    while e.get("k") == "Un" and e["op"] == "!":
        pol = not pol
        e = model.strip(e["e"])
    if e.get("k") == "Call" and e.get("n", "").endswith("need_swap"):
        return pol
    return None
