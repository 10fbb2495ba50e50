"""C24: indices and ranges in the map qbsp assembles refer to the elements they were written for."""
import re
import cfg, model, sym
from absint import deep
from flow import operands, short
from model import AnalysisBroken, walk

RULE = ("Symbolic summaries (path conditions and ordered memory effects, values as canonical formulas, container sizes versioned across calls that may grow them) of every function of the "
        "compiler's export stage: on each path an element is stored once, the number handed out is the container's size before it, its fields come from the same source element, "
        "range starts are sizes before and counts are sizes after minus before, children keep their order and convention; in the driver the stages run in the order they need each other.")

KNOWN = ("ExportMapPlane", "ExportMapTexinfo", "ExportClipNodes", "ExportLeaf", "ExportDrawNodes", "BeginBSPFile", "FinishBSPFile", "GetEdge", "EmitEdges", "EmitFaceFragment", "EmitFaces_R",
         "EmitFaces", "EmitVertex", "EmitFaceVertices", "EmitVertices_R", "EmitVertices", "ExportBrushList_r", "ExportBrushList", "EmitAreaPortals", "FindAreas_r", "SetAreaPortalAreas_r",
         "MakeMarkFaces", "AddMarksurfaces_r", "ProcessEntity", "FindTexinfo", "WriteBSPFile", "WriteExtendedTexinfoFlags", "FreeTreePortals", "ShouldOmitFace")
BSP = "map.bsp."
LEAFD, NODED = "get_leafdata(&%s)", "get_nodedata(&%s)"


def helpers(P, f, stop=KNOWN):
    """functions of the same file that are only called from f (extracted pieces)"""
    calls = {}
    for g in P.fns.values():
        if g["f"] != f["f"]:
            continue
        for x in model.fn_nodes(g):
            if x.get("k") == "Call" and x.get("fn") in P.fns:
                calls.setdefault(x["fn"], set()).add(g["n"])
    ok, ch = {f["n"]}, True
    while ch:
        ch = False
        for k, cs in calls.items():
            g = P.fns[k]
            if g["f"] == f["f"] and g["n"] not in ok and cs <= ok and g["n"].split("::")[-1] not in stop:
                ok.add(g["n"])
                ch = True
    return ok - {f["n"]}


class E:
    """effects of one path"""

    def __init__(self, g, e):
        self.g, self.e = g, e

    def pushes(self, c):
        return [(i, x) for i, x in enumerate(self.e) if x[0] in ("push", "append", "mutate", "empty") and c in (x[1], x[2] if len(x) > 2 else None) and not (x[0] == "push" and x[1] != c) and not (x[0] == "mutate" and x[2] != c)]

    def last(self, place):
        r = [x[2] for x in self.e if x[0] in ("=", "|=") and x[1] == place]
        return r[-1] if r else None

    def idx(self, place):
        r = [i for i, x in enumerate(self.e) if x[0] in ("=", "|=") and x[1] == place]
        return r[-1] if r else None

    def calls(self, name):
        return [(i, x) for i, x in enumerate(self.e) if x[0] == "call" and x[1] == name]

    def ret(self):
        r = [x[1] for x in self.e if x[0] == "return"]
        return r[-1] if r else None

    def pos(self, rx):
        return any(p and re.search(rx, a) for a, p in self.g)

    def neg(self, rx):
        return any(not p and re.search(rx, a) for a, p in self.g)


class V:
    def __init__(self, ck, S, what):
        self.ck, self.S, self.what = ck, S, what

    def paths(self, ctx="F", hows=("end", "next")):
        return [E(g, e) for g, e, how in self.S.iters.get(ctx, ()) if how in hows]

    def where(self, h="F"):
        return self.S.B.nodes[h].where() if h != "F" else "%s:%d (%s)" % (self.S.f["f"], self.S.f["l"], self.S.f["n"].split("::")[-1])

    def ob(self, key, bad, text, h="F"):
        bad = [b for b in dict.fromkeys(bad) if b]
        self.ck.ob("export", "%s:%s" % (self.what, key), not bad, self.where(h), text + (" -- " + "; ".join(bad[:3]) if bad else ""))

    def loop_over(self, cnt):
        """loops whose index runs over the given number of elements"""
        out = []
        for its in self.S.iters.values():
            for g, e, how in its:
                for x in e:
                    if x[0] == "loop" and re.fullmatch(r"i'*<%s>" % re.escape(cnt), x[2]) and (x[1], x[2]) not in out:
                        out.append((x[1], x[2]))
        return out


def one(ck, P, name, file, nparams=None, calls=(), val=None):
    f = P.fn(name, file, nparams=nparams) if nparams is not None else P.fn(name, file)
    ck.count("functions")
    S = sym.summary(P, f, inline=helpers(P, f), calls=calls)
    return V(ck, S, name + ("/%d" % nparams if nparams is not None else "")), f


def bare(v, src, word):
    """the value is the named property of the source, unchanged"""
    return v is not None and src in v and word in v and not re.search(r"(?:^|[ (])-?\d+\*|not\(|mod\(|div\(", v)


SZ = lambda c, h=None: BSP + c + ".size()" + ("@%s" % h if h is not None else "")


def rd(S, place):
    return place + ".size()"


def diff(S, a, b):
    return S.plain(S.add(S.at_(a), S.at_(b), -1))


def planes(ck, P):
    v, f = one(ck, P, "ExportMapPlane", "qbsp/writebsp.cc")
    src, D = "map.planes[P0]", BSP + "dplanes"
    bad, bad2 = [], []
    for p in v.paths():
        ps = p.pushes(D)
        if p.pos(r"^has_value\(%s\.outputnum\)$" % re.escape(src)):
            if ps or p.ret() != src + ".outputnum":
                bad.append("a plane already stored gives %s" % p.ret())
            continue
        if len(ps) != 1 or ps[0][1][0] != "push":
            bad.append("a plane is stored %d times" % len(ps))
            continue
        n = SZ("dplanes")
        if p.last(src + ".outputnum") != n:
            bad.append("the number remembered is %s" % p.last(src + ".outputnum"))
        if p.ret() not in (n, src + ".outputnum"):
            bad.append("the number handed out is %s" % p.ret())
        for fld in ("normal", "dist", "type"):
            w = p.last("%s[%s].%s" % (D, n, fld))
            if w is None:
                a = ps[0][1][3] if len(ps[0][1]) > 3 else ""
                m = re.search(r"[{,]%s=([^,}]*)" % fld, a)
                w = m.group(1) if m else None
            if not bare(w, src, fld):
                bad2.append("%s is %s" % (fld, w))
    v.ob("number", bad, "a map plane is stored once and always referred to by the index it was stored at")
    v.ob("fields", bad2, "the stored plane is the map plane")


def texinfo(ck, P):
    v, f = one(ck, P, "ExportMapTexinfo", "qbsp/writebsp.cc", calls=("ExportMapTexinfo",))
    src, D = "map.mtexinfos[P0]", BSP + "texinfo"
    n = SZ("texinfo")
    bad, bad2, bad3 = [], [], []
    T = "%s[%s]" % (D, n)
    for p in v.paths():
        ps = p.pushes(D)
        if p.pos(r"^has_value\(%s\.outputnum\)$" % re.escape(src)):
            if ps or p.ret() != src + ".outputnum":
                bad.append("a record already stored gives %s" % p.ret())
            continue
        if not ps:
            if p.ret() != "-1" or not p.pos(r"is_nodraw$") or not p.neg(r"includeskip") or p.last(src + ".outputnum") is not None:
                bad.append("no record is stored and %s is handed out under %s" % (p.ret(), sorted(p.g)))
            if not p.neg(r"target_game\.id == 0$") and not p.neg(r"native"):
                bad.append("a light-emitting record of Quake II is dropped")
            continue
        if len(ps) != 1 or ps[0][1][0] != "push":
            bad.append("a record is stored %d times" % len(ps))
            continue
        if p.last(src + ".outputnum") != n or p.ret() not in (n, src + ".outputnum"):
            bad.append("stored at %s, remembered as %s, handed out as %s" % (n, p.last(src + ".outputnum"), p.ret()))
        i = p.idx(src + ".outputnum")
        if any(i is not None and j < i for j, x in p.calls("ExportMapTexinfo")):
            bad.append("the next record is stored before this one is remembered")
        for fld in ("flags", "miptex", "vecs"):
            if p.last("%s.%s" % (T, fld)) != "%s.%s" % (src, fld):
                bad2.append("%s is %s" % (fld, p.last("%s.%s" % (T, fld))))
        w = p.last(T + ".value")
        if w != "map.miptex[%s.miptex].value" % src:
            bad2.append("value is %s" % w)
        if not p.pos(r"is_valid\(%s\.flags" % re.escape(src)):
            bad2.append("flags the game does not have are written")
        nx = p.last(T + ".nexttexinfo")
        if p.pos(r"has_value\(%s\.next\)" % re.escape(src)):
            if nx != "ExportMapTexinfo(%s.next)" % src:
                bad3.append("the next frame is %s" % nx)
        elif nx is not None and nx != "-1":
            bad3.append("a record without a next frame links to %s" % nx)
    v.ob("number", bad, "a texture record is stored once, and referred to by the index it was stored at; only records that are never drawn have none")
    v.ob("fields", bad2, "the stored record has the flags, texture, vectors and value of its source")
    v.ob("next", bad3, "an animation chain links stored records")


def clipnodes(ck, P):
    v, f = one(ck, P, "ExportClipNodes", "qbsp/writebsp.cc", 1, calls=("ExportClipNodes", "ExportMapPlane"))
    D, n = BSP + "dclipnodes", SZ("dclipnodes")
    L, N = LEAFD % "P0", NODED % "P0"
    bad, bad2 = [], []
    for p in v.paths():
        ps = p.pushes(D)
        rec = p.calls("ExportClipNodes")
        leaf = p.pos(r"^&?get_leafdata\(&P0\)$|^is_leaf\(&P0\)$")
        if leaf:
            if ps or rec or p.ret() is None or not re.fullmatch(r"contents_to_native\(&qbsp_options.target_game,%s.contents\)" % re.escape(L), p.ret()):
                bad.append("a leaf gives %s" % p.ret())
            continue
        if len(ps) != 1 or ps[0][1][0] != "push":
            bad.append("a node is stored %d times" % len(ps))
            continue
        if any(i < ps[0][0] for i, x in rec):
            bad2.append("a child is stored before the node's own place is taken")
        if p.ret() != n:
            bad.append("the number handed out is %s" % p.ret())
        for k in (0, 1):
            if p.last("%s[%s].children[%d]" % (D, n, k)) != "ExportClipNodes(&%s.children[%d])" % (N, k):
                bad2.append("child %d is %s" % (k, p.last("%s[%s].children[%d]" % (D, n, k))))
        if p.last("%s[%s].planenum" % (D, n)) != "ExportMapPlane(%s.planenum)" % N:
            bad2.append("the plane is %s" % p.last("%s[%s].planenum" % (D, n)))
        if len(rec) != 2:
            bad2.append("%d children are stored" % len(rec))
    v.ob("number", bad, "a clip node is referred to by the index it was stored at, a leaf by its contents")
    v.ob("fields", bad2, "a clip node splits on its own plane and keeps its front and back child")
    v, f = one(ck, P, "ExportClipNodes", "qbsp/writebsp.cc", 3, calls=("ExportClipNodes",))
    bad = []
    for p in v.paths():
        hs = [x for x in p.e if x[0] == "=" and "headnode" in x[1]]
        if [x[1:] for x in hs] != [("map.bsp.dmodels[P0.outputmodelnumber].headnode[P2]", "ExportClipNodes(&P1)")]:
            bad.append("stored %s" % [x[1:] for x in hs])
    v.ob("head", bad, "the hull's root is recorded in the entity's own model, for that hull")


def leaf(ck, P):
    v, f = one(ck, P, "ExportLeaf", "qbsp/writebsp.cc")
    D, n = BSP + "dleafs", SZ("dleafs")
    T = "%s[%s]" % (D, n)
    L = LEAFD % "P0"
    M = L + ".markfaces"
    bad, bad2, bad3 = [], [], []
    lo = v.loop_over(M + ".size()")
    outer = [h for h, s in lo]
    for p in v.paths():
        ps = p.pushes(D)
        if len(ps) != 1 or ps[0][1][0] != "push":
            bad.append("a leaf is stored %d times" % len(ps))
            continue
        c = p.last(T + ".contents")
        if not re.fullmatch(r"contents_to_native\(&qbsp_options.target_game,contents_remap_for_export\(&qbsp_options.target_game,%s.contents,\d+\)\)" % re.escape(L), c or ""):
            bad.append("contents are %s" % c)
        for fld, w in (("visofs", "-1"), ("cluster", "P0.viscluster"), ("firstleafbrush", L + ".firstleafbrush"), ("numleafbrushes", L + ".numleafbrushes")):
            if p.last(T + "." + fld) != w:
                bad.append("%s is %s" % (fld, p.last(T + "." + fld)))
        if p.last(T + ".mins") != "floor(mins(P0.bounds))" or p.last(T + ".maxs") != "ceil(maxs(P0.bounds))":
            bad.append("bounds are %s to %s" % (p.last(T + ".mins"), p.last(T + ".maxs")))
        first = p.last(T + ".firstmarksurface")
        if first != SZ("dleaffaces"):
            bad2.append("the surface list starts at %s" % first)
        num = p.last(T + ".nummarksurfaces")
        ls = [x[1] for x in p.e if x[0] == "loop" and x[1] in outer]
        if len(ls) != 1 or num != diff(v.S, SZ("dleaffaces", ls[0]), SZ("dleaffaces")):
            bad2.append("the surface list has %s entries" % num)
        area = p.last(T + ".area")
        solid = p.pos(r"^and\(1,contents_to_native")
        leak = p.pos(r"^map\.leakfile$") or p.pos(r"^map\.region$") or p.neg(r"^map\.antiregions\.size\(\) == 0$")
        want = "0" if solid else "1" if leak else L + ".area"
        if area != want:
            bad3.append("area is %s%s" % (area, " of a solid leaf" if solid else " after a leak" if leak else ""))
    # what goes into the list
    if len(lo) != 1:
        raise AnalysisBroken("anchor: the loop over the faces touching a leaf")
    h, s = lo[0]
    FR = "%s[%s].fragments" % (M, s)
    inner = v.loop_over(FR + ".size()")
    if len(inner) != 1:
        bad2.append("the pieces of a face are not all looked at")
    else:
        h2, s2 = inner[0]
        OUT = "%s[%s].outputnumber" % (FR, s2)
        for g, e, how in v.S.iters.get(h2, ()):
            p = E(g, e)
            ps = p.pushes(BSP + "dleaffaces")
            if how != "next":
                bad2.append("the list of a face's pieces is cut short")
            elif p.pos(r"^has_value\(%s\)$" % re.escape(OUT)) or p.pos(r"^%s$" % re.escape(OUT)):
                if len(ps) != 1 or ps[0][1][3:] != (OUT,):
                    bad2.append("a stored piece is listed as %s" % [x[3:] for i, x in ps])
            elif ps:
                bad2.append("something that was not stored is listed")
        for g, e, how in v.S.iters.get(h, ()):
            p = E(g, e)
            if how != "next":
                bad2.append("the list of faces touching the leaf is cut short")
            elif not any(x[0] == "loop" and x[1] == h2 for x in e):
                if not (p.neg(r"includeskip") and p.pos(r"is_nodraw") and (p.neg(r"target_game\.id == 0$") or p.neg(r"native"))):
                    bad2.append("a drawn face touching the leaf is left out under %s" % sorted(g))
    v.ob("fields", bad, "a leaf is stored once with its own contents, bounds, cluster and brush list, and no visibility yet")
    v.ob("surfaces", bad2, "a leaf's surface list covers exactly the stored pieces of the faces touching it")
    v.ob("area", bad3, "a leaf's area is its own; invalid when solid, the one area when the map leaks")


def drawnodes(ck, P):
    v, f = one(ck, P, "ExportDrawNodes", "qbsp/writebsp.cc", 1, calls=("ExportDrawNodes", "ExportLeaf", "ExportMapPlane"))
    D, n = BSP + "dnodes", SZ("dnodes")
    T = "%s[%s]" % (D, n)
    N = NODED % "P0"
    S = v.S
    # variables that only ever name the node's own record
    own = set()
    for i, inits in S.inits.items():
        ok = True
        for x in inits:
            d = deep(x)
            while d.get("k") == "Un" and d["op"] in ("&", "*"):
                d = deep(d["e"])
            if d.get("k") == "Call" and short(d) in ("emplace_back",) and deep(d["obj"]).get("f") == "dnodes":
                continue
            if (d.get("k") == "Index" or d.get("k") == "Call" and (d.get("op") == "[]" or short(d) == "at")):
                b = deep(d["base"] if d.get("k") == "Index" else operands(d)[0])
                ix = deep(d["idx"] if d.get("k") == "Index" else operands(d)[1])
                vals = {x[2] for its in S.iters.values() for g, e, how in its for x in e if x[0] == "let" and x[1] == "v:%s" % ix.get("id")}
                if b.get("f") == "dnodes" and vals == {n}:
                    continue
            ok = False
        if ok:
            own.add("v:%s" % i)
    bad, bad2 = [], []
    kid = None
    for p in v.paths():
        ps = p.pushes(D)
        if len(ps) != 1 or ps[0][1][0] != "push":
            bad.append("a node is stored %d times" % len(ps))
            continue
        for fld, w in (("planenum", "ExportMapPlane(%s.planenum)" % N), ("firstface", N + ".firstface"), ("numfaces", N + ".numfaces"), ("mins", "floor(mins(P0.bounds))"), ("maxs", "ceil(maxs(P0.bounds))")):
            got = [p.last(b + "." + fld) for b in [T] + sorted(own)]
            got = [x for x in got if x is not None]
            if got != [w]:
                bad.append("%s is %s" % (fld, got))
        ls = [x for x in p.e if x[0] == "loop" and x[2] == "i<2>"]
        st = [x for x in p.e if x[0] == "=" and ".children[" in x[1]]
        if not ls and not st:
            bad2.append("the children are not stored")
        kid = ls[0][1] if ls else "F"
    its = v.S.iters.get(kid, ()) if kid is not None else ()
    cases = 0
    for g, e, how in its:
        p = E(g, e)
        if how == "left":
            bad2.append("the walk over the two children can stop early")
            continue
        for k in (["i<2>"] if kid != "F" else ["0", "1"]):
            C = "%s.children[%s]" % (N, k)
            gs = [(a, q) for a, q in g if ("&%s)" % C) in a and re.match(r"^&?get_leafdata|^is_leaf", a)]
            isleaf = any(q for a, q in gs)
            if len(gs) != 1:
                bad2.append("child %s is not told apart as leaf or node" % k)
                continue
            st = [(i, x) for i, x in enumerate(e) if x[0] == "=" and x[1].endswith(".children[%s]" % k) and (x[1][:-len(".children[%s]" % k)] in own | {T})]
            if len(st) != 1:
                bad2.append("child %s is stored %d times" % (k, len(st)))
                continue
            i, x = st[0]
            rec = [(j, y) for j, y in p.calls("ExportDrawNodes") if y[2] == "&" + C]
            lf = [(j, y) for j, y in p.calls("ExportLeaf") if y[2] == "&" + C]
            q2 = p.pos(r"target_game\.id == 0$")
            solid = any(q and "is_any_solid" in a and C in a for a, q in g)
            val = re.sub(r"@[\w]+", "", x[2])
            cases += 1
            if not isleaf:
                if len(rec) != 1 or lf or val != n:
                    bad2.append("a node child is stored as %s" % val)
            elif solid and not q2:
                if not p.neg(r"target_game\.id == 0$"):
                    bad2.append("a solid leaf of Quake II gets no record of its own")
                if lf or rec or val != "-1":
                    bad2.append("a solid child is stored as %s" % val)
            else:
                if len(lf) != 1 or rec or val != v.S.plain(v.S.add(v.S.num(-1), v.S.at_(SZ("dleafs")), -1)):
                    bad2.append("a leaf child is stored as %s" % val)
                if not solid and not q2 and not any("is_any_solid" in a and C in a for a, q in g):
                    bad2.append("a solid leaf outside Quake II gets a record of its own")
            # the number is read before the child grows the list
            cont = "dnodes" if not isleaf else "dleafs"
            grow = [j for j, y in enumerate(e) if y[0] == "call" and y[1] in ("ExportDrawNodes", "ExportLeaf")]
            vers = re.findall(re.escape(BSP + cont + ".size()") + r"(@\w+)?", x[2])
            nodes = {str(m.i) for m in v.S.B.nodes if m.ast is not None and m.ast.get("k") == "Call" and short(m.ast) in ("ExportDrawNodes", "ExportLeaf")}
            if any(t[1:] in nodes for t in vers) and kid != "F":
                bad2.append("the number of a child is read after the child was stored")
    if cases == 0 and not bad2:
        raise AnalysisBroken("anchor: children of %s" % f["n"])
    v.ob("fields", bad, "a node is stored once with its own plane, face range and bounds")
    v.ob("children", bad2, "each child is the index of the node stored for it, or -1 - the index of the leaf stored for it, or the shared solid leaf outside Quake II")
    v, f = one(ck, P, "ExportDrawNodes", "qbsp/writebsp.cc", 3, calls=("ExportDrawNodes", "ExportLeaf"))
    bad = []
    M = "map.bsp.dmodels[P0.outputmodelnumber]"
    for p in v.paths():
        rec = p.calls("ExportDrawNodes") + p.calls("ExportLeaf")
        isleaf = p.pos(r"^is_leaf\(&P1\)$|^&?get_leafdata\(&P1\)$")
        if len(rec) != 1 or rec[0][1][2] != "&P1" or (rec[0][1][1] == "ExportLeaf") != isleaf:
            bad.append("the tree is stored by %s" % [x[1:] for i, x in rec])
            continue
        i = rec[0][0]
        if p.last(M + ".headnode[0]") != SZ("dnodes"):
            bad.append("the root is %s" % p.last(M + ".headnode[0]"))
        if p.last(M + ".firstface") != "P2":
            bad.append("the face range starts at %s" % p.last(M + ".firstface"))
        if re.sub(r"@\w+", "", p.last(M + ".numfaces") or "") not in (diff(v.S, SZ("dfaces"), "P2"), diff(v.S, SZ("dfaces"), M + ".firstface")):
            bad.append("the face range has %s entries" % p.last(M + ".numfaces"))
        vl = p.last(M + ".visleafs") or ""
        m = re.fullmatch(r"-1\*map\.bsp\.dleafs\.size\(\) \+ 1\*map\.bsp\.dleafs\.size\(\)@(\d+)", vl)
        ids = {str(x.i) for x in v.S.B.nodes if x.ast is not None and x.ast.get("k") == "Call" and short(x.ast) in ("ExportDrawNodes", "ExportLeaf")}
        if not m or m.group(1) not in ids:
            bad.append("the number of leaves is %s" % vl)
    v.ob("model", bad, "a model's root, face range and leaf count are those of the tree stored for it")


def reserved(ck, P):
    v, f = one(ck, P, "BeginBSPFile", "qbsp/writebsp.cc")
    bad = []
    for p in v.paths():
        for c in ("dedges", "dleafs"):
            ps = p.pushes(BSP + c)
            if [x[0] for i, x in ps] != ["push"]:
                bad.append("%s starts with %d entries" % (c, len(ps)))
        T = BSP + "dleafs[%s]" % SZ("dleafs")
        if "create_solid_contents" not in (p.last(T + ".contents") or ""):
            bad.append("leaf 0 has contents %s" % p.last(T + ".contents"))
        if p.last(T + ".cluster") != "-1":
            bad.append("leaf 0 has cluster %s" % p.last(T + ".cluster"))
    v.ob("zero", bad, "edge 0 and the solid leaf 0 are taken before anything else is stored")


def edges(ck, P):
    v, f = one(ck, P, "GetEdge", "qbsp/faces.cc", calls=("add_hash_edge",))
    D, n = BSP + "dedges", SZ("dedges")
    bad, bad2 = [], []
    for p in v.paths():
        ps = p.pushes(D)
        r = p.ret() or ""
        if ps:
            if len(ps) != 1 or ps[0][1][0] != "push":
                bad.append("an edge is stored %d times" % len(ps))
                continue
            a = ps[0][1][3:]
            args = (a[0][1:-1].split(",") if len(a) == 1 and a[0].startswith("{") else list(a)) or [p.last("%s[%s][%d]" % (D, n, k)) for k in (0, 1)]
            if [re.sub(r"^\w+=", "", x or "?") for x in args] != ["P0", "P1"]:
                bad.append("the edge stored joins %s" % args)
            if r != n:
                bad.append("the number handed out is %s" % r)
            hs = p.calls("add_hash_edge")
            emp = [x for x in p.e if x[0] == "mutate" and x[2] == "map.hashedges"]
            if len(hs) + len(emp) != 1:
                bad2.append("a stored edge is remembered %d times" % (len(hs) + len(emp)))
            elif hs and (hs[0][1][3:6] != ("P0", "P1", n) or hs[0][1][6] != "&P2"):
                bad2.append("a stored edge is remembered as %s" % (hs[0][1][3:],))
        else:
            if not re.fullmatch(r"-1\*[\w:.()&\[\]]+\.edge_index", r):
                bad.append("an edge found stored is handed out as %s" % r)
            if p.calls("add_hash_edge"):
                bad2.append("a reused edge is remembered again")
            if not p.neg(r"find\(map\.hashedges,make_pair\(P1,P0\)\).*== 0$"):
                bad2.append("an edge is reused that was not found stored the other way round")
            if not p.pos(r"^equals\(.*contents\.front,.*P2\.contents\.front\)$|^equals\(P2\.contents\.front,.*contents\.front\)$"):
                bad2.append("an edge is reused between faces of different contents")
            if not p.neg(r"^qbsp_options\.noedgereuse$"):
                bad2.append("an edge is reused although that is switched off")
    v.ob("number", bad, "an edge joins the two vertices it was asked for and is referred to by its index, negated when it is stored the other way round")
    v.ob("reuse", bad2, "an edge is reused only when it was stored the other way round for a face of equal contents")
    v, f = one(ck, P, "EmitEdges", "qbsp/faces.cc", calls=("GetEdge",))
    bad = []
    W, X = "P1.output_vertices", "P1.edges"
    lo = v.loop_over(W + ".size()")
    if len(lo) != 1:
        bad.append("the edges of a face are not made for all its vertices")
    else:
        h, s = lo[0]
        more = v.S.plain(v.S.add(v.S.add(v.S.at_(s), v.S.num(1)), v.S.at_(W + ".size()"), -1)) + " < 0"

        def nxt(p):
            r = {"mod(1 + 1*%s,%s.size())" % (s, W)}
            if (more, True) in p.g:
                r.add("1 + 1*%s" % s)
            if (more, False) in p.g:
                r.add("0")
            return r
        for g, e, how in v.S.iters[h]:
            p = E(g, e)
            if how != "next":
                bad.append("the edges of a face are cut short")
                continue
            gs = p.calls("GetEdge")
            st = [x for x in e if x[0] == "=" and x[1] == "%s[%s]" % (X, s)]
            pu = [x for x in e if x[0] == "push" and x[1] == X]
            if len(gs) != 1 or len(st) + len(pu) != 1:
                bad.append("a vertex gives %d edges, %d stored" % (len(gs), len(st) + len(pu)))
                continue
            a = gs[0][1]
            if a[2] != "%s[%s]" % (W, s) or a[3] not in {"%s[%s]" % (W, k) for k in nxt(p)} or a[4] != "&P0":
                bad.append("an edge joins %s and %s" % (a[2], a[3]))
            val = st[0][2] if st else pu[0][3]
            if not val.startswith("GetEdge(") or "," .join(a[2:4]) not in val:
                bad.append("the edge stored is %s" % val)
        for p in v.paths():
            if not any(x[0] == "loop" and x[1] == h for x in p.e):
                bad.append("a face gets no edges under %s" % sorted(p.g))
            rs = [x for x in p.e if x[0] in ("mutate", "empty") and X in x[1:3]]
            if not any(x[0] == "empty" or x[1] in ("resize", "assign") and x[3] == W + ".size()" for x in rs) and any(x[0] == "=" and x[1].startswith(X + "[") for g, e, how in v.S.iters[h] for x in e):
                bad.append("the edge list is not made as long as the vertex list")
    v.ob("order", bad, "the edges of a face join its vertices in order and around")


def faces(ck, P):
    v, f = one(ck, P, "EmitFaceFragment", "qbsp/faces.cc")
    D, n = BSP + "dfaces", SZ("dfaces")
    T = "%s[%s]" % (D, n)
    X, W = "P1.edges", "P1.output_vertices"
    bad, bad2 = [], []
    sty = [h for h, s in v.loop_over("4") if any(x == ("=", "%s.styles[%s]" % (T, s), "255") for g, e, how in v.S.iters[h] for x in e) and all(how == "next" for g, e, how in v.S.iters[h])]
    emitted = 0
    for p in v.paths():
        ps = p.pushes(D)
        if not ps:
            if p.last("P1.outputnumber") is not None or p.pushes(BSP + "dsurfedges") or p.pushes("map.exported_lmshifts"):
                bad.append("a piece that is not stored leaves something behind")
            if not p.pos(r"^-3 \+ 1\*%s\.size\(\) < 0$" % re.escape(W)):
                bad.append("a piece with an area is not stored under %s" % sorted(p.g))
            continue
        emitted += 1
        if len(ps) != 1 or ps[0][1][0] != "push":
            bad.append("a piece is stored %d times" % len(ps))
            continue
        if p.last("P1.outputnumber") != n:
            bad.append("the number remembered is %s" % p.last("P1.outputnumber"))
        lm = p.pushes("map.exported_lmshifts")
        if [x[0] for i, x in lm] != ["push"] or lm[0][1][3:] != ("P0.original_side.lmshift",):
            bad.append("the lightmap scale list gets %s" % [x[3:] for i, x in lm])
        side, plane = p.last(T + ".side"), p.last(T + ".planenum")
        if side not in ("and(1,P0.planenum)", "mod(P0.planenum,2)"):
            bad2.append("side is %s" % side)
        even = {"and(P0.planenum,not(1))", "and(P0.planenum,-2)", "2*div(P0.planenum,2)", diff(v.S, "P0.planenum", "and(1,P0.planenum)"), diff(v.S, "P0.planenum", "mod(P0.planenum,2)")}
        if plane not in {"ExportMapPlane(%s)" % x for x in even}:
            bad2.append("plane is %s" % plane)
        if p.last(T + ".texinfo") != "ExportMapTexinfo(P0.texinfo)":
            bad2.append("texture record is %s" % p.last(T + ".texinfo"))
        if p.last(T + ".lightofs") != "-1":
            bad2.append("light offset is %s" % p.last(T + ".lightofs"))
        fills = [x for x in p.e if x[0] == "loop" and x[1] in sty] or [x for x in p.e if x[0] == "mutate" and x[1:4] == ("fill", T + ".styles", "255")]
        if not fills and not all(p.last("%s.styles[%d]" % (T, k)) == "255" for k in range(4)) :
            bad2.append("light styles are not all unused")
        se = p.pushes(BSP + "dsurfedges")
        full = (X + ".size()", W + ".size()")
        if [x[0] for i, x in se] != ["append"] or se[0][1][2:4] != (X, "0") or se[0][1][4] not in full:
            lp = [(h, s) for c in full for h, s in v.loop_over(c)]
            okp = len(lp) == 1 and all(how == "next" and [x for x in e if x[0] == "push"] == [("push", BSP + "dsurfedges", x[2], "%s[%s]" % (X, lp[0][1])) for x in e if x[0] == "push"][:1] for g, e, how in v.S.iters[lp[0][0]])
            if not okp:
                bad.append("the edge list stored is %s" % [x[2:5] for i, x in se])
        if p.last(T + ".firstedge") != SZ("dsurfedges"):
            bad.append("the edge list starts at %s" % p.last(T + ".firstedge"))
        if p.last(T + ".numedges") not in full and not re.fullmatch(r"-1\*map\.bsp\.dsurfedges\.size\(\) \+ 1\*map\.bsp\.dsurfedges\.size\(\)@\d+", p.last(T + ".numedges") or ""):
            bad.append("the edge list has %s entries" % p.last(T + ".numedges"))
    if not emitted:
        raise AnalysisBroken("anchor: %s stores nothing" % f["n"])
    v.ob("number", bad, "a piece of a face is stored once under its own number, with its whole edge list and its lightmap scale")
    v.ob("fields", bad2, "a face lies on its own plane (the even one of the pair, and the side), with its own texture record, no lighting yet")

    v, f = one(ck, P, "EmitFaces_R", "qbsp/faces.cc", calls=("EmitEdges", "EmitFaceFragment", "EmitFaces_R"))
    N = NODED % "P0"
    FL = N + ".facelist"
    bad, bad2 = [], []
    lo = v.loop_over(FL + ".size()")
    if len(lo) != 1:
        bad.append("the faces of a node are not all stored")
    else:
        h, s = lo[0]
        FR = "%s[%s].fragments" % (FL, s)
        inn = v.loop_over(FR + ".size()")
        if len(inn) != 1:
            bad.append("the pieces of a face are not all stored")
        else:
            h2, s2 = inn[0]
            for g, e, how in v.S.iters[h]:
                if how != "next" or not any(x[0] == "loop" and x[1] == h2 for x in e):
                    bad.append("a face of the node is skipped under %s" % sorted(g))
            for g, e, how in v.S.iters[h2]:
                p = E(g, e)
                cs = [x for x in e if x[0] == "call"]
                face, frag = "&%s[%s]" % (FL, s), "&%s[%s]" % (FR, s2)
                if how != "next" or [x[1] for x in cs] != ["EmitEdges", "EmitFaceFragment"] or any(x[2] != face or x[3] != frag for x in cs):
                    bad.append("a piece is stored by %s" % [x[1:4] for x in cs])
    for p in v.paths():
        rec = p.calls("EmitFaces_R")
        if p.pos(r"^is_leaf\(&P0\)$|^&?get_leafdata\(&P0\)$") or p.neg(r"^&?get_nodedata\(&P0\)$"):
            if rec:
                bad2.append("a leaf has children")
            continue
        if sorted(x[2] for i, x in rec) != ["&%s.children[0]" % N, "&%s.children[1]" % N] and not v.loop_over("2"):
            bad2.append("the children walked are %s" % [x[2] for i, x in rec])
        if p.last(N + ".firstface") != SZ("dfaces"):
            bad2.append("the face range starts at %s" % p.last(N + ".firstface"))
        if not lo or p.last(N + ".numfaces") not in (diff(v.S, SZ("dfaces", lo[0][0]), SZ("dfaces")), diff(v.S, SZ("dfaces", lo[0][0]), N + ".firstface")):
            bad2.append("the face range has %s entries" % p.last(N + ".numfaces"))
    v.ob("pieces", bad, "every piece of every face of a node is stored, edges first")
    v.ob("range", bad2, "a node's face range covers exactly the pieces of its own faces")
    v, f = one(ck, P, "EmitFaces", "qbsp/faces.cc", calls=("EmitFaces_R",))
    bad = []
    for p in v.paths():
        cs = p.calls("EmitFaces_R")
        if p.ret() != SZ("dfaces") or len(cs) != 1 or cs[0][1][2] != "&P0":
            bad.append("the first face of a model is %s" % p.ret())
        if not any(x[0] == "empty" and x[1] == "map.hashedges" for x in p.e):
            bad.append("edges of one model can be reused by the next")
    v.ob("first", bad, "a model's first face is the number of faces stored before it, and edges are not shared between models")


def vertices(ck, P):
    v, f = one(ck, P, "EmitVertex", "qbsp/faces.cc", calls=("add_hash_vector", "find_emitted_hash_vector"))
    D, n = BSP + "dvertexes", SZ("dvertexes")
    bad = []
    for p in v.paths():
        ps = p.pushes(D)
        found = p.pos(r"find_emitted_hash_vector\(map,P0\)")
        if found:
            w = p.last("P1") or ""
            if ps or not (w.startswith("v:") or "find_emitted_hash_vector(map,P0)" in w):
                bad.append("a vertex already stored is referred to by %s" % w)
            continue
        if len(ps) != 1 or ps[0][1][0] != "push" or ps[0][1][3:] != ("P0",) or p.last("P1") != n:
            bad.append("a vertex is stored as %s and referred to by %s" % ([x[3:] for i, x in ps], p.last("P1")))
        a = p.calls("add_hash_vector")
        if len(a) != 1 or a[0][1][3] != "P0" or a[0][1][4] not in (n, "P1"):
            bad.append("a stored vertex is remembered as %s" % [x[2:] for i, x in a])
    v.ob("number", bad, "a vertex is stored once and referred to by the index it was stored at")
    v, f = one(ck, P, "EmitFaceVertices", "qbsp/faces.cc", calls=("EmitVertex",))
    bad = []
    lo = [(h, s) for c in ("P0.w.size()", "size(P0.w)", "P0.original_vertices.size()") for h, s in v.loop_over(c)]
    lo = lo or [(h, s) for its in v.S.iters.values() for g, e, how in its for x in e if x[0] == "loop" for h, s in [(x[1], x[2])]]
    for h, s in set(lo):
        for g, e, how in v.S.iters[h]:
            cs = [x for x in e if x[0] == "call"]
            if how != "next" or len(cs) != 1 or not re.fullmatch(r"&?(?:operator\[\]\(P0\.w,%s\)|P0\.w\[%s\])" % (re.escape(s), re.escape(s)), cs[0][2]) or re.sub(r"@\w+$", "", cs[0][3]) not in ("P0.original_vertices[%s]" % s, "&P0.original_vertices[%s]" % s):
                bad.append("vertex %s is stored as %s" % (s, [x[2:] for x in cs]))
    if len(set(lo)) != 1:
        bad.append("the vertices of a face are not all stored")
    v.ob("all", bad, "every vertex of a face that is kept is stored, in order")


def brushes(ck, P):
    v, f = one(ck, P, "ExportBrushList_r", "qbsp/qbsp.cc", calls=("ExportMapPlane", "ExportMapTexinfo", "ExportBrushList_r"))
    L = LEAFD % "P1"
    OB = L + ".original_brushes"
    bad, bad2, bad3 = [], [], []
    lo = v.loop_over(OB + ".size()")
    if len(lo) != 1:
        raise AnalysisBroken("anchor: the loop over a leaf's brushes")
    h, s = lo[0]
    MB = "%s[%s].mapbrush" % (OB, s)
    for p in v.paths():
        rec = p.calls("ExportBrushList_r")
        if rec or p.neg(r"^is_leaf\(&P1\)$|^&?get_leafdata\(&P1\)$"):
            N = NODED % "P1"
            if sorted(x[3] for i, x in rec) != ["&%s.children[0]" % N, "&%s.children[1]" % N]:
                bad.append("the children walked are %s" % [x[3] for i, x in rec])
            continue
        has = any(x[0] == "loop" and x[1] == h for x in p.e)
        first, num = p.last(L + ".firstleafbrush"), p.last(L + ".numleafbrushes")
        if has:
            if first != SZ("dleafbrushes"):
                bad.append("the brush list starts at %s" % first)
            if num not in (OB + ".size()", diff(v.S, SZ("dleafbrushes", h), SZ("dleafbrushes"))):
                bad.append("the brush list has %s entries" % num)
        elif num not in (None, "0"):
            bad.append("an empty brush list has %s entries" % num)
        elif not (p.pos(r"original_brushes\.size\(\) == 0$") or p.pos(r"contents_to_native\(.*== 0$")):
            bad.append("a leaf's brushes are left out under %s" % sorted(p.g))
    for g, e, how in v.S.iters[h]:
        p = E(g, e)
        ps = p.pushes(BSP + "dleafbrushes")
        if how != "next" or [x[0] for i, x in ps] != ["push"]:
            bad.append("a brush is listed %d times" % len(ps))
            continue
        n = re.escape(SZ("dbrushes")) + r"(?:@\d+)?"
        bs = p.pushes(BSP + "dbrushes")
        if p.pos(r"^has_value\(%s\.outputnumber\)$" % re.escape(MB)):
            if bs or ps[0][1][3] != MB + ".outputnumber":
                bad2.append("a stored brush is listed as %s" % ps[0][1][3])
            continue
        if [x[0] for i, x in bs] != ["push"]:
            bad2.append("a brush is stored %d times" % len(bs))
            continue
        at = bs[0][1][2]
        if ps[0][1][3] not in (at, MB + ".outputnumber") or p.last(MB + ".outputnumber") != at:
            bad2.append("stored at %s, remembered as %s, listed as %s" % (at, p.last(MB + ".outputnumber"), ps[0][1][3]))
        a = bs[0][1][3] if len(bs[0][1]) > 3 else ""
        B = "%sdbrushes[%s]" % (BSP, at)

        def fld(name):
            m = re.search(r"[{,]%s=(.*?)(?:,\w+=|}$)" % name, a)
            return p.last(B + "." + name) or (m.group(1) if m else None)
        ls = [(x[1], x[2]) for x in e if x[0] == "loop"]
        if len(ls) != 1 or not re.fullmatch(r"i'*<%s\.faces\.size\(\)>" % re.escape(MB), ls[0][1]):
            bad3.append("the sides stored are those of %s" % ls)
            continue
        if not re.fullmatch(re.escape(SZ("dbrushsides")) + r"(?:@%d)?" % h, fld("firstside") or ""):
            bad3.append("the side list starts at %s" % fld("firstside"))
        c = fld("contents") or ""
        if "contents_to_native" not in c or "%s[%s].contents" % (OB, s) not in c:
            bad3.append("contents are %s" % c)
        num0 = fld("numsides")
        h2, s2 = ls[0]
        SD = "%s.faces[%s]" % (MB, s2)
        for g2, e2, how2 in v.S.iters[h2]:
            q = E(g2, e2)
            ps2 = q.pushes(BSP + "dbrushsides")
            if how2 != "next" or [x[0] for i, x in ps2] != ["push"]:
                bad3.append("a side is stored %d times" % len(ps2))
                continue
            inc = [x for x in e2 if x[0] == "=" and x[1].endswith(".numsides")]
            if num0 == "0" and not (len(inc) == 1 and inc[0][1] == B + ".numsides" and re.fullmatch(r"1 \+ 1\*%s\.numsides(@\d+)?" % re.escape(B), inc[0][2])):
                bad3.append("a stored side is counted as %s" % [x[1:] for x in inc])
            if num0 != "0" and (inc or num0 not in (MB + ".faces.size()",)) and not re.match(r"-1\*.*dbrushsides", num0 or ""):
                bad3.append("the side list has %s entries" % num0)
            val = ",".join(ps2[0][1][3:])
            if "ExportMapPlane(%s.planenum)" % SD not in val:
                bad3.append("the plane of a side is %s" % val)
            if "ExportMapTexinfo(" not in val or SD + ".texinfo" not in val:
                bad3.append("the texture record of a side is %s" % val)
    v.ob("leaf", bad, "a leaf's brush list covers exactly the brushes it is made of")
    v.ob("number", bad2, "a brush is stored once and listed under the index it was stored at")
    v.ob("sides", bad3, "a brush's side list covers exactly its own sides, on their own planes")


def areas(ck, P):
    v, f = one(ck, P, "EmitAreaPortals", "qbsp/portals.cc", calls=("FindAreas_r", "SetAreaPortalAreas_r"))
    bad, bad2 = [], []
    A, AP = BSP + "dareas", BSP + "dareaportals"
    lo = v.loop_over("map.c_areas") + [x for x in v.loop_over("c_areas")]
    lo = lo or [(x[1], x[2]) for its in v.S.iters.values() for g, e, how in its for x in e if x[0] == "loop" and "c_areas" in x[2]]
    lo = sorted(set(lo))
    if len(lo) != 1:
        raise AnalysisBroken("anchor: the loop over areas")
    h, s = lo[0]
    ent = None
    for g, e, how in v.S.iters[h]:
        p = E(g, e)
        ps = p.pushes(A)
        if how != "next" or [x[0] for i, x in ps] != ["push"]:
            bad.append("an area is stored %d times" % len(ps))
            continue
        T = "%s[%s]" % (A, ps[0][1][2])
        first, num = p.last(T + ".firstareaportal") or "", p.last(T + ".numareaportals") or ""
        ls = [x[1] for x in e if x[0] == "loop"]
        if not re.fullmatch(re.escape(AP + ".size()") + r"(@%d)?" % h, first):
            bad.append("the portal list starts at %s" % first)
        ok = len(ls) == 1 and num in (diff(v.S, "%s.size()@%d" % (AP, ls[0]), first), diff(v.S, "%s.size()@%d" % (AP, ls[0]), T + ".firstareaportal"))
        if not ok:
            bad.append("the portal list has %s entries" % num)
        ent = ls[0] if ls else None
    for p in v.paths():
        leak = p.pos(r"^map\.leakfile$|^map\.region$") or p.neg(r"antiregions\.size\(\) == 0$")
        ps = p.pushes(A)
        if len(p.pushes(AP)) != 1 or len(ps) != (2 if leak else 1):
            bad.append("%d areas and %d portals are reserved%s" % (len(ps), len(p.pushes(AP)), " after a leak" if leak else ""))
        if not leak:
            o = [x[1] for x in p.e if x[0] == "call" or x[0] == "loop" and x[1] == h]
            if o != ["FindAreas_r", "SetAreaPortalAreas_r", h]:
                bad.append("areas are made in the order %s" % o)
    v.ob("range", bad, "an area's portal list covers exactly the portals stored for it; area 0 and portal 0 are reserved")
    if ent is None:
        return
    IDX = v.S.plain(v.S.add(v.S.at_(s), v.S.num(1)))
    en = [x[2] for its in v.S.iters.values() for g, e, how in its for x in e if x[0] in ("loop", "left") and x[1] == ent]
    EN = "map.entities[%s]" % en[0]
    for g, e, how in v.S.iters[ent]:
        p = E(g, e)
        if how == "left":
            bad2.append("the list of portal entities is cut short")
            continue
        num = [x for x in e if x[0] == "=" and x[1].endswith(".portalnum")]
        oth = [x for x in e if x[0] == "=" and x[1].endswith(".otherarea")]
        # which of its two areas is this one?
        m = {k: [q for a, q in g if EN + ".portalareas[%d]" % k in a and a.endswith("== 0")] for k in (0, 1)}
        side = 0 if m[0] == [True] else 1 if m[1] == [True] else None
        if side is None:
            if num or oth:
                bad2.append("a portal of another area is recorded")
            continue
        if [x[2] for x in num] != [EN + ".areaportalnum"] or [x[2] for x in oth] != [EN + ".portalareas[%d]" % (1 - side)]:
            bad2.append("a portal of the area leads to %s" % [x[2] for x in oth])
    v.ob("other", bad2, "a portal of an area leads to the other of its two areas")


def driver(ck, P):
    """the stages of the export run in the order in which they need each other"""
    f = P.fn("ProcessEntity", "qbsp/qbsp.cc")
    ck.count("functions")
    B = cfg.Builder(P, inline=lambda fn, c, d: fn["n"] in helpers(P, f), max_depth=3).build(f)
    calls = {}
    for n in B.nodes:
        if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call":
            calls.setdefault(short(n.ast), []).append(n)
    need = [("EmitVertices", "EmitFaces"), ("TJunc", "EmitFaces"), ("EmitVertices", "TJunc"), ("MakeMarkFaces", "EmitVertices"), ("EmitFaces", "ExportDrawNodes"), ("MakeMarkFaces", "ExportDrawNodes"),
            ("MarkVisibleSides", "MakeFaces"), ("MakeFaces", "MakeMarkFaces"), ("PruneNodes", "MakeMarkFaces")]

    def reach(start, stop):
        seen, st = set(), list(start)
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            st += [t for t, l in B.nodes[x].succ]
        return seen
    for a, b in need:
        if b not in calls:
            raise AnalysisBroken("anchor: %s is not called from %s" % (b, f["n"]))
        stop = {n.i for n in calls.get(a, ())}
        r = reach([B.entry.i], stop)
        bad = [n for n in calls[b] if n.i in r]
        ck.ob("order", "%s<%s" % (a, b), not bad, (bad[0] if bad else calls[b][0]).where(), "%s runs only after %s" % (b, a))
    # model numbers
    S = None
    for g in P.fns.values():
        pass
    q2 = [n for n in calls.get("ExportBrushList", ())]
    ok = bool(q2)
    for n in calls["ExportDrawNodes"]:
        r = reach([n.i], ())
        if any(m.i in r for m in q2):
            ok = False
    ck.ob("order", "ExportBrushList<ExportDrawNodes", ok, calls["ExportDrawNodes"][0].where(), "brush lists are made before the leaves that refer to them are stored")
    a = operands(calls["ExportDrawNodes"][0].ast)
    ff = [x["f"] for x in walk(a[2]) if x.get("k") == "Member"]
    ck.ob("order", "firstface", "firstoutputfacenumber" in ff or deep(a[2]).get("k") == "Ref", calls["ExportDrawNodes"][0].where(), "a model's face range starts at the first face stored for its entity")
    asg = [x for n in B.nodes if n.kind == "ev" and n.ast is not None for x in [n.ast] if x.get("k") in ("Bin", "Call") and x.get("op") == "=" and any(y.get("k") == "Member" and y.get("f") == "firstoutputfacenumber" for y in walk(operands(x)[0] if x.get("k") == "Call" else x["a"]))]
    vals = [deep(operands(x)[1] if x.get("k") == "Call" else x["b"]) for x in asg]
    src = [short(y) for x in vals for y in walk(x) if y.get("k") == "Call"]
    ck.ob("order", "firstface-value", len(asg) == 1 and "EmitFaces" in src, calls["EmitFaces"][0].where(), "the first face of an entity is the one its faces were stored from")
    # model number = size before the model is stored
    mods = [(n, n.ast) for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") in ("Bin", "Call") and n.ast.get("op") == "=" and deep(operands(n.ast)[0] if n.ast.get("k") == "Call" else n.ast["a"]).get("f") == "outputmodelnumber"]
    grow = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and n.ast.get("obj") is not None and short(n.ast) in ("emplace_back", "push_back") and deep(n.ast["obj"]).get("f") == "dmodels"]
    ok = len(mods) == 1 and len(grow) == 1
    text = "a model's number is the number of models stored before it"
    if ok:
        (n, e), rd = mods[0], None
        val = deep(operands(e)[1] if e.get("k") == "Call" else e["b"])
        if val.get("k") == "Ref":
            ini = [m.ast["init"] for m in B.nodes if m.kind == "ev" and m.ast is not None and m.ast.get("k") == "Var" and m.ast["id"] == val.get("id") and m.ast.get("init") is not None]
            if len(ini) == 1:
                rd = [m for m in B.nodes if m.kind == "ev" and m.ast is not None and m.ast.get("k") == "Var" and m.ast["id"] == val.get("id")][0]
                val = deep(ini[0])
        sz = [y for y in walk(val) if y.get("k") == "Call" and short(y) == "size" and deep(y["obj"]).get("f") == "dmodels"]
        ar = [y for y in walk(val) if y.get("k") == "Bin"]
        minus = [y for y in ar if y["op"] == "-" and cfg.cval(y["b"]) == 1]
        if rd is not None:
            n = rd
        before = grow[0].i not in reach([B.entry.i], {n.i})
        after = n.i not in reach([B.entry.i], {grow[0].i})
        ok = len(sz) == 1 and (not ar and before and not after or len(ar) == 1 and len(minus) == 1 and after)
    ck.ob("order", "modelnumber", ok, (mods or grow or [calls["EmitFaces"][0]])[0][0].where() if mods else calls["EmitFaces"][0].where(), text)


def run(ck):
    P = ck.load("qbsp")
    planes(ck, P)
    texinfo(ck, P)
    clipnodes(ck, P)
    leaf(ck, P)
    drawnodes(ck, P)
    reserved(ck, P)
    vertices(ck, P)
    edges(ck, P)
    faces(ck, P)
    brushes(ck, P)
    areas(ck, P)
    driver(ck, P)
    ck.floor("export", 24)
    ck.floor("order", 12)
    ck.assumptions.append("the pieces of a face are those tjunc and subdivision left on it; geometry is not judged")
    ck.assumptions.append("map.cc's lookup tables return what was put in them; accessors get_nodedata / get_leafdata give the same part of the same node every time")
