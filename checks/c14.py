"""C14: the map description lists each field of the map under its own name."""
import re
import cfg, effects, flow, model, sym
from flow import key, short, operands
from model import strip, walk, fn_nodes
import c04

RULE = ("Every store into the description is resolved to a path in the output (object keys and array levels) and to the map data it is taken from. The description's published "
        "paths must each be fed by exactly the published piece of map data and by nothing else; within the loop over an array of records every path of an iteration stores "
        "every published field; a section is present whenever its array is not empty (explored over all paths under the assumption that it is not); bytes are dumped as two "
        "hexadecimal digits each, over the whole buffer; strings that are not valid UTF-8 do not abort the dump; and the finished description is what is written.")

# output path -> source(s)
TABLE = {
    "models[]": "dmodels", "models[].mins": "dmodels[].mins", "models[].maxs": "dmodels[].maxs", "models[].origin": "dmodels[].origin",
    "models[].headnode": "dmodels[].headnode", "models[].visleafs": "dmodels[].visleafs", "models[].firstface": "dmodels[].firstface", "models[].numfaces": "dmodels[].numfaces",
    "visdata.pvs[]": "dvis.bit_offsets[][0]", "visdata.phs[]": "dvis.bit_offsets[][1]", "visdata.bits": "dvis.bits", "visdata": "dvis.bits",
    "lightdata": "dlightdata", "entdata": "dentdata",
    "leafs[].contents": "dleafs[].contents", "leafs[].visofs": "dleafs[].visofs", "leafs[].mins": "dleafs[].mins", "leafs[].maxs": "dleafs[].maxs",
    "leafs[].firstmarksurface": "dleafs[].firstmarksurface", "leafs[].nummarksurfaces": "dleafs[].nummarksurfaces", "leafs[].ambient_level": "dleafs[].ambient_level",
    "leafs[].cluster": "dleafs[].cluster", "leafs[].area": "dleafs[].area", "leafs[].firstleafbrush": "dleafs[].firstleafbrush", "leafs[].numleafbrushes": "dleafs[].numleafbrushes",
    "planes[].normal": "dplanes[].normal", "planes[].dist": "dplanes[].dist", "planes[].type": "dplanes[].type",
    "vertexes[]": "dvertexes[]",
    "nodes[].planenum": "dnodes[].planenum", "nodes[].children": "dnodes[].children", "nodes[].mins": "dnodes[].mins", "nodes[].maxs": "dnodes[].maxs",
    "nodes[].firstface": "dnodes[].firstface", "nodes[].numfaces": "dnodes[].numfaces",
    "nodes[].plane": " ".join("dplanes[dnodes[].planenum]." + x for x in ("normal[0]", "normal[1]", "normal[2]", "dist")),
    "texinfo[].vecs": " ".join("texinfo[].vecs[%d][%d]" % (a, b) for a in range(2) for b in range(4)),
    "texinfo[].flags": "texinfo[].flags.native", "texinfo[].miptex": "texinfo[].miptex", "texinfo[].value": "texinfo[].value", "texinfo[].texture": "texinfo[].texture",
    "texinfo[].nexttexinfo": "texinfo[].nexttexinfo",
    "faces[].planenum": "dfaces[].planenum", "faces[].side": "dfaces[].side", "faces[].firstedge": "dfaces[].firstedge", "faces[].numedges": "dfaces[].numedges",
    "faces[].texinfo": "dfaces[].texinfo", "faces[].styles": "dfaces[].styles", "faces[].lightofs": "dfaces[].lightofs", "faces[].vertices[]": "dvertexes[*]",
    "clipnodes[].planenum": "dclipnodes[].planenum", "clipnodes[].children": "dclipnodes[].children",
    "edges[]": "dedges[]", "leaffaces[]": "dleaffaces[]", "surfedges[]": "dsurfedges[]",
    "brushsides[].planenum": "dbrushsides[].planenum", "brushsides[].texinfo": "dbrushsides[].texinfo",
    "brushes[].firstside": "dbrushes[].firstside", "brushes[].numsides": "dbrushes[].numsides", "brushes[].contents": "dbrushes[].contents",
    "leafbrushes[]": "dleafbrushes[]",
    "textures[].name": "dtex.textures[].name", "textures[].width": "dtex.textures[].width", "textures[].height": "dtex.textures[].height",
    "bspxentries[].lumpname": "bspx.entries[].first", "bspxentries[].lumpdata": "bspx.entries[].second",
    "bspxentries[].models[].ver": "bspxbrushes.models[].ver", "bspxentries[].models[].modelnum": "bspxbrushes.models[].modelnum",
    "bspxentries[].models[].numbrushes": "bspxbrushes.models[].brushes#", "bspxentries[].models[].numfaces": "bspxbrushes.models[].numfaces",
    "bspxentries[].models[].brushes[].mins": "bspxbrushes.models[].brushes[].bounds.mins", "bspxentries[].models[].brushes[].maxs": "bspxbrushes.models[].brushes[].bounds.maxs",
    "bspxentries[].models[].brushes[].contents": "bspxbrushes.models[].brushes[].contents",
    "bspxentries[].models[].brushes[].faces[].normal": "bspxbrushes.models[].brushes[].faces[].normal",
    "bspxentries[].models[].brushes[].faces[].dist": "bspxbrushes.models[].brushes[].faces[].dist",
    "bspxentries[].faces[].lmwidth": "bspx_decoupled_lm_perface.lmwidth", "bspxentries[].faces[].lmheight": "bspx_decoupled_lm_perface.lmheight",
    "bspxentries[].faces[].offset": "bspx_decoupled_lm_perface.offset",
    "bspxentries[].faces[].world_to_lm_space": "bspx_decoupled_lm_perface.world_to_lm_space.row[0] bspx_decoupled_lm_perface.world_to_lm_space.row[1]",
}
del TABLE["models[]"]
# section -> the array whose non-emptiness requires it
SECTIONS = {}
for _k, _v in TABLE.items():
    if _k.startswith("bspxentries[].") or " " in _v:
        continue
    _s = re.split(r"[.\[]", _k)[0]
    _c = re.split(r"\[", _v)[0]
    if _s == "visdata":
        _c = "dvis.bits"
    if _s not in SECTIONS:
        SECTIONS[_s] = _c
SECTIONS["bspxentries"] = "bspx.entries"
# alternatives of one record: exactly the others may be absent
OPTIONAL = re.compile(r"^bspxentries\[\]\.(lumpdata|models|faces)|^visdata")


class Src:
    def __init__(self, B, D):
        self.B, self.D = B, D
        self.rv = {}
        self.vt = {}
        for n in B.nodes:
            if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "RVar":
                self.rv[n.ast["id"]] = n.ast["range"]
        # counted loops over a whole array: index variable -> (array, condition node)
        self.counted = {}
        inits, incs, sets = {}, {}, {}
        for n in B.nodes:
            e = n.ast
            if n.kind != "ev" or e is None:
                continue
            if e.get("k") == "Var":
                inits.setdefault(e["id"], []).append(cfg.cval(e.get("init")) if e.get("init") else None)
            elif e.get("k") == "Un" and e["op"] in ("++", "p++") and strip(e["e"]).get("k") == "Ref":
                incs.setdefault(strip(e["e"])["id"], []).append(n)
            elif e.get("k") == "Bin" and e["op"] == "+=" and cfg.cval(e["b"]) == 1 and strip(e["a"]).get("k") == "Ref":
                incs.setdefault(strip(e["a"])["id"], []).append(n)
            elif e.get("k") == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=") and strip(e["a"]).get("k") == "Ref":
                sets.setdefault(strip(e["a"]).get("id"), []).append(n)
        for n in B.nodes:
            e = strip(n.ast) if n.ast is not None else None
            if n.kind == "br" and e.get("k") == "Bin" and e["op"] in ("<", "!=") and strip(e["a"]).get("k") == "Ref":
                i = strip(e["a"])["id"]
                p = self.path(e["b"])
                if p and p.endswith("#") and inits.get(i) == [0] and len(incs.get(i, ())) == 1 and i not in sets:
                    self.counted[i] = (p[:-1], n)

    def path(self, e, d=0):
        """name of the map data an lvalue denotes, or None"""
        e = strip(e)
        if e is None or d > 25:
            return None
        k = e.get("k")
        if k == "Ref":
            i = e.get("id")
            if i in self.rv:
                p = self.path(self.rv[i], d + 1)
                return None if p is None else p + "[]"
            if self.D.get(i) is not None:
                p = self.path(self.D[i], d + 1)
                if p is not None:
                    return p
            t = e.get("t", "").replace("const ", "").replace(" &", "").replace(" *", "").strip()
            if t in ("mbsp_t", "bspdata_t"):
                return ""
            if t.startswith("bspx"):
                return t
            return None
        if k == "Member":
            if e.get("anon"):
                return self.path(e.get("base"), d + 1)
            b = self.path(e.get("base"), d + 1) if e.get("base") is not None else None
            return None if b is None else (b + "." if b else "") + e["f"]
        if k == "Un" and e["op"] in ("*", "&"):
            return self.path(e["e"], d + 1)
        if k == "Index":
            b = self.path(e["base"], d + 1)
            return None if b is None else b + self.sub(b, e["idx"])
        if k in ("Construct", "Init"):
            a = e.get("args") if k == "Construct" else e.get("c")
            return self.path(a[0], d + 1) if a and len(a) == 1 else None
        if k == "Call":
            o = operands(e)
            nm = short(e)
            if e.get("op") == "[]" or nm in ("at", "operator[]"):
                b = self.path(o[0], d + 1)
                if b is None:
                    return None
                for x in o[1:]:
                    b += self.sub(b, x)
                return b
            if e.get("op") in ("*", "->") and len(o) == 1:
                return self.path(o[0], d + 1)
            if nm in ("data", "c_str", "begin", "cbegin", "move", "as_const", "get", "value") and len(o) == 1:
                return self.path(o[0], d + 1)
            if nm in ("size", "ssize", "length") and len(o) == 1:
                b = self.path(o[0], d + 1)
                return None if b is None else b + "#"
            if nm in ("mins", "maxs", "row") and o:
                b = self.path(o[0], d + 1)
                if b is None:
                    return None
                b += "." + nm
                for x in o[1:]:
                    v = cfg.cval(x)
                    b += "[%d]" % v if v is not None else "[*]"
                return b
        return None

    def sub(self, b, x):
        v = cfg.cval(x)
        if v is not None:
            return "[%d]" % v
        x = strip(x)
        if x.get("k") == "Ref" and self.counted.get(x.get("id"), ("",))[0] == b:
            return "[]"
        p = self.path(x)
        return "[%s]" % p if p and not p.endswith("#") and "[*]" not in p else "[*]"

    def atoms(self, e, d=0):
        e0, e = e, strip(e)
        if e is None or d > 25:
            return []
        p = self.path(e)
        if p:
            return [p]
        out = []
        if e.get("k") == "Ref":
            if self.D.get(e.get("id")) is not None:
                return self.atoms(self.D[e["id"]], d + 1)
            return []
        if e.get("k") == "Cond":
            return self.atoms(e["a"], d + 1) + self.atoms(e["b"], d + 1)
        if e.get("k") == "Lambda":
            return []
        for c in model.kids(e):
            out += self.atoms(c, d + 1)
        return out

    def value(self, e):
        a = self.atoms(e)
        out = []
        for x in a:
            if x.endswith("#") and x[:-1] in a:
                continue
            if x not in out:
                out.append(x)
        return " ".join(out)


def is_json(e):
    return "basic_json" in (e or {}).get("t", "").split("<")[0] or "nlohmann::basic_json<" in (e or {}).get("t", "")[:40] or (e or {}).get("t", "").replace("const ", "").startswith(("json", "nlohmann::basic_json", "nlohmann::json"))


class Out:
    """paths of json values"""

    def __init__(self, B, D, S):
        self.B, self.D, self.S = B, D, S
        self.alias = {}

    def lit(self, e, d=0):
        e = strip(e)
        while e is not None and d < 10:
            d += 1
            if e.get("k") == "Str":
                return e["v"]
            if e.get("k") == "Construct" and e.get("args"):
                e = strip(e["args"][0])
            elif e.get("k") == "Ref" and self.D.get(e.get("id")) is not None:
                e = strip(self.D[e["id"]])
            else:
                return None
        return None

    def path(self, e, d=0):
        e = strip(e)
        if e is None or d > 25:
            return None
        k = e.get("k")
        if k == "Ref":
            i = e.get("id")
            if i in self.alias:
                return self.alias[i]
            x = self.D.get(i)
            if x is not None:
                p = self.path(x, d + 1)
                if p is not None:
                    return p
            return "@%s" % i if is_json(e) else None
        if k == "Member" and e["f"] == "first" and e.get("base") is not None:
            return self.path(e["base"], d + 1)
        if k == "Construct" and len(e.get("args", ())) == 1:
            return self.path(e["args"][0], d + 1)
        if k == "Un" and e["op"] in ("*", "&"):
            return self.path(e["e"], d + 1)
        if k == "Call":
            o = operands(e)
            nm = short(e)
            if (e.get("op") == "[]" or nm in ("at", "operator[]", "emplace", "try_emplace", "insert_or_assign")) and len(o) >= 2 and self.lit(o[1]) is not None:
                b = self.path(o[0], d + 1)
                return None if b is None else (b + "." if b else "") + self.lit(o[1])
            if nm in ("insert", "emplace_back") and o and is_json(strip(o[0])):
                b = self.path(o[0], d + 1)
                return None if b is None else b + "[]"
            if nm == "back" and len(o) == 1 and is_json(strip(o[0])):
                b = self.path(o[0], d + 1)
                return None if b is None else b + "[]"
            if nm in ("value", "move", "get_ref") and len(o) == 1:
                return self.path(o[0], d + 1)
            if e.get("op") in ("*", "->") and len(o) == 1:
                return self.path(o[0], d + 1)
            if e.get("op") == "=" and len(o) == 2:
                return self.path(o[0], d + 1)
        return None

    def empty(self, e):
        """a fresh empty object/array"""
        e = strip(e)
        d = 0
        while e is not None and e.get("k") == "Construct" and len(e.get("args", ())) == 1 and d < 6:
            e = strip(e["args"][0])
            d += 1
        if e is None:
            return True
        if e.get("k") == "Call" and short(e) in ("object", "array"):
            return not any(x.get("k") in ("Member",) for x in walk(e))
        if e.get("k") in ("Null",):
            return True
        return e.get("k") in ("Construct", "Init") and not e.get("args", e.get("c"))

    def pair(self, e):
        """{"key", value}"""
        e = strip(e)
        d = 0
        while e is not None and e.get("k") == "Construct" and len(e.get("args", ())) == 1 and d < 6:
            e = strip(e["args"][0])
            d += 1
        if e is not None and e.get("k") in ("Init", "Construct"):
            c = e.get("c") or e.get("args") or []
            if len(c) == 2 and self.lit(c[0]) is not None:
                return self.lit(c[0]), c[1]
        return None

    def expand(self, base, v):
        """(path, value) of an object literal"""
        e = strip(v)
        d = 0
        while e is not None and e.get("k") == "Construct" and len(e.get("args", ())) == 1 and d < 6:
            e = strip(e["args"][0])
            d += 1
        if e is not None and e.get("k") == "Call" and short(e) == "object" and e.get("args"):
            return self.expand(base, e["args"][0])
        if e is not None and e.get("k") == "Init" and e.get("c"):
            ps = [self.pair(c) for c in e["c"]]
            if all(ps):
                return [(base + "." + k if base else k, x) for k, x in ps]
        return [(base, v)]

    def store(self, e):
        """[(path, value)] written by this event"""
        if e.get("k") == "Bin" and e["op"] == "=" and is_json(strip(e["a"])):
            p = self.path(e["a"])
            return [] if p is None else self.expand(p, e["b"])
        if e.get("k") != "Call":
            return []
        o = operands(e)
        nm = short(e)
        if e.get("op") == "=" and len(o) == 2 and is_json(strip(o[0])):
            p = self.path(o[0])
            return [] if p is None else self.expand(p, o[1])
        if not o or not is_json(strip(o[0])):
            return []
        b = self.path(o[0])
        if b is None:
            return []
        if nm == "push_back" or e.get("op") == "+=":
            pr = self.pair(o[1])
            if pr:
                return [((b + "." if b else "") + pr[0], pr[1])]
            return self.expand(b + "[]", o[1])
        if nm == "emplace_back" and len(o) == 2:
            return self.expand(b + "[]", o[1])
        if nm == "insert" and len(o) == 3:
            return self.expand(b + "[]", o[2])
        if nm in ("emplace", "try_emplace", "insert_or_assign") and len(o) == 3 and self.lit(o[1]) is not None:
            return self.expand((b + "." if b else "") + self.lit(o[1]), o[2])
        return []


def run(ck):
    P = ck.load("common", "bspinfo")
    f = P.fn("serialize_bsp")
    skip = ("hex_string", "serialize_image", "build_lightmap_atlas", "export_obj_and_lightmaps", "load_mip")
    home = f["f"]
    B = cfg.Builder(P, inline=lambda g, c, d: g["f"] == home and g["n"] not in skip and (any("basic_json" in p["t"] for p in g["params"]) or "basic_json" in g.get("ret", "") or g.get("lambda")),
                    max_depth=5).build(f)
    D = flow.defs(B)
    S = Src(B, D)
    O = Out(B, D, S)
    # root: the json value handed to the stream
    roots = [n.ast["id"] for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and is_json(n.ast) and n.fn["key"] == f["key"] and
             not n.chain and O.empty(n.ast.get("init")) and not n.ast.get("t", "").endswith("&")]
    written = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and n.ast.get("op") == "<<" and not n.chain and any(
        x.get("k") == "Ref" and x.get("id") in roots for x in walk(n.ast))]
    root = None
    for n in written:
        for x in walk(n.ast):
            if x.get("k") == "Ref" and x.get("id") in roots:
                root = x["id"]
    if root is None:
        for n in B.nodes:
            if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and short(n.ast) == "dump":
                for x in walk(n.ast):
                    if x.get("k") == "Ref" and x.get("id") in roots:
                        root, written = x["id"], [n]
    if root is None:
        raise model.AnalysisBroken("the written description")
    O.alias[root] = ""
    rets = {}
    for n in B.nodes:
        if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Var" and n.ast.get("ret") and n.ast.get("init") is not None:
            e, d = strip(n.ast["init"]), 0
            while e is not None and e.get("k") == "Construct" and len(e.get("args", ())) == 1 and d < 6:
                e, d = strip(e["args"][0]), d + 1
            rets.setdefault(n.ast["id"], []).append(e)
    for _ in range(6):
        for i, l in rets.items():
            if i in O.alias and len(l) > 1:
                for e in l:
                    if e is not None and e.get("k") == "Ref" and is_json(e):
                        O.alias.setdefault(e["id"], O.alias[i])
        for n in B.nodes:
            if n.kind != "ev" or n.ast is None:
                continue
            for p, v in O.store(n.ast):
                if p.startswith("@"):
                    continue
                e = strip(v)
                d = 0
                while e is not None and d < 8:
                    d += 1
                    if e.get("k") == "Construct" and len(e.get("args", ())) == 1:
                        e = strip(e["args"][0])
                    elif e.get("k") == "Call" and short(e) == "move":
                        e = strip(e["args"][0])
                    elif e.get("k") == "Ref" and is_json(e) and D.get(e.get("id")) is not None and strip(D[e["id"]]).get("k") in ("Ref", "Construct") and O.path(D[e["id"]]) and O.path(D[e["id"]]).startswith("@"):
                        e = strip(D[e["id"]])
                    else:
                        break
                if e is not None and e.get("k") == "Ref" and is_json(e) and e.get("id") not in O.alias:
                    O.alias[e["id"]] = p
                if e is not None:
                    q = O.path(e)
                    if q and q.startswith("@") and q[1:] not in O.alias and "." not in q and "[" not in q:
                        O.alias[q[1:]] = p
    stores = {}
    for n in B.nodes:
        if n.kind != "ev" or n.ast is None:
            continue
        for p, v in O.store(n.ast):
            stores.setdefault(p, []).append((n, v))
    ck.count("stores", sum(len(v) for v in stores.values()))
    altered(ck, B, D, S, O)
    nodes_of = {}
    for p, want in TABLE.items():
        l = [(n, v) for n, v in stores.get(p, []) if not O.empty(v) and O.path(v) is None]
        nodes_of[p] = [n for n, v in l]
        if not l:
            ck.ob("described", p, False, model.loc(f), "the description lists %s (from %s)" % (p, want))
            continue
        for n, v in l:
            got = S.value(v)
            if got == want and p not in ("faces[].vertices[]",):
                why = changed(S, B, v, want, p)
                ck.ob("unchanged", p, not why, n.where(), "%s is the field as it stands (%s)" % (p, why or "plain"))
            ck.ob("own-field", p, got == want, n.where(), "%s is taken from %s (found: %s)" % (p, want, got or "nothing of the map"))
    # one source per output path, one path per key
    for p, l in sorted(stores.items()):
        if p in TABLE or p.startswith("@") or p == "":
            continue
        l = [(n, v) for n, v in l if not O.empty(v)]
        for n, v in l:
            src = S.value(v)
            if src and src in TABLE.values() and re.sub(r"\[\]|\.", "", p) in [re.sub(r"\[\]|\.", "", q) for q in TABLE]:
                ck.ob("own-field", p, False, n.where(), "%s is no level of the published description" % p)
    # completeness inside loops: from the iteration start every path to the loop's next round stores the field
    heads = [(n, S.path(n.ast.get("range")) if not isinstance(n.extra, tuple) else S.path(n.extra[2])) for n in B.nodes if n.kind == "loop" and n.ast is not None and n.ast.get("k") == "RFor"]
    heads += [(n, p) for p, n in S.counted.values()]
    for n, src in heads:
        if src is None:
            continue
        fields = [p for p in TABLE if nodes_of.get(p) and not OPTIONAL.match(p) and _record(p) is not None and _loopsrc(TABLE[p], p) == src]
        for p in fields:
            own = {m.i for m in nodes_of[p]}

            def step(m, s, lab, L=n.i, own=own):
                if lab == "exc":
                    return None
                if m.i == L:
                    if s == "open":
                        return "missed"
                    return ("open" if lab in ("iter", True) else "idle") if s != "missed" else s
                if s == "open":
                    if m.i in own:
                        return "stored"
                    if m.kind == "br" and lab in (True, False) and m.ast is not None:
                        c, pol = c04.core(m.ast, D)
                        if c is not None and (S.path(c) or "").endswith(".null_texture") and lab == pol:
                            return "idle"
                    if p.endswith("vertices[]"):
                        return "idle"
                return s
            F = flow.Flow(B, "idle", step)
            ck.ob("every-record", p, "missed" not in F.states(B.exit), n.where(), "each iteration over %s stores %s" % (src, p))
    elements(ck, B, D, S, stores, heads)
    bspx(ck, B, D, S, O, stores)
    vertices(ck, P, f)
    # sections
    for sec, cont in sorted(SECTIONS.items()):
        own = {m.i for q, l in stores.items() if re.split(r"[.\[]", q)[0] == sec for m, v in l}

        def step(m, s, lab):
            if lab == "exc":
                return None
            if m.i in own:
                return "there"
            if m.kind == "br" and lab in (True, False) and m.ast is not None:
                r = nonempty(m.ast, cont)
                if r is not None and r != lab:
                    return None
            return s

        def nonempty(e, cont):
            c, pol = c04.core(e, D)
            c = strip(c) if c is not None else None
            if c is None:
                return None
            if c.get("k") == "Call" and short(c) == "empty" and S.path(operands(c)[0]) == cont:
                return not pol
            if c.get("k") == "Call" and short(c) == "size" and S.path(operands(c)[0]) == cont:
                return pol
            if c.get("k") == "Bin" and c["op"] in (">", "!=") and S.path(c["a"]) == cont + "#" and cfg.cval(c["b"]) == 0:
                return pol
            return None
        F = flow.Flow(B, "none", step)
        ck.ob("section-present", sec, F.states(B.exit) == {"there"}, model.loc(f), "%s is described whenever %s is not empty" % (sec, cont))
    hexdump(ck, P, f)
    for n in written:
        e = n.ast
        dumps = [x for x in walk(e) if x.get("k") == "Call" and short(x) == "dump"]
        for x in list(walk(e)):
            if x.get("k") == "Ref" and D.get(x.get("id")) is not None:
                dumps += [y for y in walk(D[x["id"]]) if y.get("k") == "Call" and short(y) == "dump"]
        ok = any("error_handler_t::replace" in (y.get("n", "") + str(y.get("q", ""))) or "error_handler_t::ignore" in (y.get("n", "") + str(y.get("q", "")))
                 or y.get("n", "").split("::")[-1] in ("replace", "ignore") for x in dumps for y in walk(x) if y.get("k") in ("Ref", "Enum"))
        ck.ob("any-charset", "serialize_bsp", ok, n.where(), "strings of the map that are not valid UTF-8 are replaced rather than aborting the dump")
    ck.floor("own-field", 40)
    ck.floor("section-present", 12)
    ck.floor("every-record", 25)
    ck.assumptions = ["the JSON library keeps keys and values as inserted and keeps the first of two equal keys", "levels of the output are named by string literals"]


ARITH = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "~"}
TRIMS = ("min", "max", "clamp", "abs", "round", "floor", "ceil", "substr", "reverse", "first", "last", "subspan", "remove_prefix", "rbegin", "lround", "lower_bound", "stem", "tolower", "trim", "normalize")
RANK = {"bool": (0, 1), "char": (0, 8), "signed char": (0, 8), "unsigned char": (0, 8), "uint8_t": (0, 8), "int8_t": (0, 8), "short": (0, 16), "unsigned short": (0, 16), "int": (0, 32), "unsigned int": (0, 32),
        "long": (0, 64), "unsigned long": (0, 64), "size_t": (0, 64), "float": (1, 32), "double": (1, 64)}


def changed(S, B, e, want, p, d=0):
    """what a stored value does to the data it is taken from, or None"""
    e0 = e
    e = strip(e) if e is None or e.get("k") != "Cast" else e
    if e is None or d > 25:
        return None
    k = e.get("k")
    if k == "Cast":
        a, b = (x.replace("const ", "").strip() for x in (e.get("from", ""), e.get("t", "")))
        if a in RANK and b in RANK and b != "bool" and (RANK[a][0] > RANK[b][0] or RANK[a][0] == RANK[b][0] and RANK[a][1] > RANK[b][1]) and S.atoms(e["e"]):
            return "cut to %s" % b
        return changed(S, B, e["e"], want, p, d + 1)
    one = (e.get("args") if k == "Construct" else e.get("c") if k == "Init" else None) or ()
    if S.path(e) and not (k == "Ref" and S.D.get(e.get("id")) is not None and e["id"] not in S.rv) and len(one) != 1:
        return None
    if k == "Ref":
        i = e.get("id")
        if S.D.get(i) is not None:
            for n in B.nodes:
                x = n.ast
                if n.kind != "ev" or x is None:
                    continue
                if p == "entdata" and x.get("k") == "Call" and operands(x) and cfg.cval(operands(x)[-1]) == 0:
                    continue  # its terminator
                t = effects.write_target(x) if x.get("k") in ("Bin", "Un", "Call") else None
                r = strip(t) if t is not None else None
                while r is not None and r.get("k") in ("Index", "Member") or r is not None and r.get("k") == "Call" and (r.get("op") in ("[]", "*") or short(r) in ("at", "front", "back")):
                    r = strip(r.get("base") if r.get("k") != "Call" else operands(r)[0]) if r.get("base") is not None or r.get("k") == "Call" else None
                if r is not None and r.get("k") == "Ref" and r.get("id") == i and not is_json(r):
                    return "changed at %s" % n.where()
                if x.get("k") == "Call" and x.get("obj") is not None and strip(x["obj"]).get("k") == "Ref" and strip(x["obj"]).get("id") == i and not is_json(strip(x["obj"])) and \
                        short(x) in ("resize", "erase", "pop_back", "clear", "push_back", "insert", "assign", "append", "remove_suffix", "remove_prefix"):
                    return "changed at %s" % n.where()
            return changed(S, B, S.D[i], want, p, d + 1)
        return None
    if k == "Lambda":
        return None
    if k == "Bin" and e["op"] in ARITH or k == "Un" and e["op"] in ARITH:
        return "arithmetic" if S.atoms(e) else None
    if k == "Cond":
        a, b = S.value(e["a"]), S.value(e["b"])
        if a != b:
            return "depends on a condition"
    if k == "Call":
        o = operands(e)
        if e.get("op") in ARITH and len(o) == 2:
            rest = [x for x in o if not (cfg.cval(x) == 0 and not S.atoms(x))]
            if len(rest) != 1 or p != "entdata":
                return "arithmetic"
        if short(e) in TRIMS and S.atoms(e):
            return short(e)
        if short(e) == "hex_string" and len(o) == 2:
            a, b = S.path(o[0]), S.path(o[1])
            if b is not None and b != "%s#" % a or b is None and not S.path(o[1]):
                return "not all of its bytes"
            return None
    if k in ("Construct", "Init"):
        c = e.get("args") if k == "Construct" else e.get("c")
        if k == "Construct" and len(c or ()) >= 2 and not is_json(e):
            its = [x for x in c if S.atoms(x)]
            for x in its:
                y = strip(x)
                if y.get("k") == "Call" and y.get("op") in ("+", "-") or y.get("k") == "Bin":
                    return "not all of it"
            if any(not S.atoms(x) and isinstance(cfg.cval(x), int) for x in c):
                return "not all of it"
    for c in model.kids(e):
        w = changed(S, B, c, want, p, d + 1)
        if w:
            return w
    return None


def altered(ck, B, D, S, O):
    """elements are appended; nothing described is taken out again"""
    for n in B.nodes:
        e = n.ast
        if n.kind != "ev" or e is None or e.get("k") != "Call" or e.get("obj") is None or not is_json(strip(e["obj"])):
            continue
        q = O.path(e["obj"])
        if q is None or q.startswith("@"):
            continue
        nm = short(e)
        if nm == "insert" and len(operands(e)) == 3:
            pos = strip(operands(e)[1])
            while pos is not None and pos.get("k") in ("Construct", "Ref"):
                pos = strip(pos["args"][0]) if pos.get("k") == "Construct" and pos.get("args") else strip(D[pos["id"]]) if pos.get("k") == "Ref" and D.get(pos.get("id")) is not None else None
            ck.ob("in-order", q + "[]", pos is not None and pos.get("k") == "Call" and short(pos) in ("end", "cend"), n.where(), "records are listed in the map's order, each after the one before")
        elif nm in ("clear", "erase", "swap", "merge_patch", "patch_inplace"):
            ck.ob("in-order", q + ":" + nm, False, n.where(), "what has been described is not taken out again")
    ck.floor("in-order", 8)


def elements(ck, B, D, S, stores, heads):
    """one element per record"""
    recs = {}
    for p, want in TABLE.items():
        r = _record(p)
        if r is None or OPTIONAL.match(p) and p not in ("bspxentries[].lumpdata",):
            continue
        src = _loopsrc(want, p)
        if src and r == (r.rsplit("[]", 1)[0] + "[]"):
            recs.setdefault(r, set()).add(src)
    recs["bspxentries[]"] = {"bspx.entries"}
    for r, srcs in sorted(recs.items()):
        own = {}
        for n, v in stores.get(r, []):
            own[n.i] = own.get(n.i, 0) + 1
        if len(srcs) != 1 or not own:
            continue
        src = next(iter(srcs))
        for n, hp in heads:
            if hp != src:
                continue

            def step(m, s, lab, L=n.i):
                if lab == "exc":
                    return None
                if m.i == L:
                    if s[0] and s[1] != 1:
                        return (False, "bad")
                    return (lab in ("iter", True), 0) if s[1] != "bad" else s
                if s[0] and m.i in own and s[1] != "bad":
                    return (True, min(s[1] + own[m.i], 2))
                return s
            F = flow.Flow(B, (False, 0), step)
            # only the loop that fills this level
            if not any(s[0] for i in own for s in F.at.get(i, ())):
                continue
            ck.ob("one-per-record", r, not any(s[1] == "bad" for s in F.states(B.exit)), n.where(), "each record of %s has exactly one element of %s" % (src, r))
    ck.floor("one-per-record", 10)


def bspx(ck, B, D, S, O, stores):
    """which kind of lump is described how; every record the lump holds"""
    lits = ("BRUSHLIST", "DECOUPLED_LM")

    def test(e):
        c, pol = c04.core(e, D)
        if c is not None and c.get("k") == "Call" and c.get("op") in ("==", "!=") and len(operands(c)) == 2:
            t = [sym.strlit(o) for o in operands(c)]
            t = [x.strip('"') for x in t if x is not None]
            if len(t) == 1 and any((S.path(o) or "").endswith(".first") for o in operands(c)):
                return t[0], (pol if c["op"] == "==" else not pol)
        return None

    def step(n, s, lab):
        if n.kind == "loop" and lab == "iter" and S.path((n.ast or {}).get("range") if not isinstance(n.extra, tuple) else n.extra[2]) == "bspx.entries":
            return (frozenset(), None)
        if n.kind == "br" and lab in (True, False) and n.ast is not None:
            t = test(n.ast)
            if t is not None:
                v = lab == t[1]
                if v and s[1] is not None and s[1] != t[0] or v and t[0] in s[0] or not v and s[1] == t[0]:
                    return None
                return (s[0], t[0]) if v else (s[0] | {t[0]}, s[1])
        return s
    F = flow.Flow(B, (frozenset(), None), step)
    if not any(s[1] for n in B.nodes for s in F.at.get(n.i, ())):
        return
    for p, want in (("bspxentries[].models", "BRUSHLIST"), ("bspxentries[].faces", "DECOUPLED_LM"), ("bspxentries[].lumpdata", None)):
        for n, v in stores.get(p, []):
            for s in sorted(F.at.get(n.i, ()), key=repr):
                ok = s[1] == want if want else s[1] is None and set(lits) <= s[0] or s[1] is not None and s[1] not in lits
                ck.ob("lump-kind", p, ok, n.where(), "a lump is described by its own layout only if it carries that layout's name, else by its bytes (name %s)" % (s[1] or "not " + ", ".join(sorted(s[0]))))
    # every record read is listed
    reads = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Call" and n.ast.get("op") in (">=", ">>") and len(operands(n.ast)) == 2
             and "bspx_decoupled_lm_perface" in (strip(operands(n.ast)[1]) or {}).get("t", "")]
    own = {n.i for n, v in stores.get("bspxentries[].faces[]", [])}
    for r in reads:
        stream = strip(operands(r.ast)[0]).get("id")

        def ofstream(e):
            c, pol = c04.core(e, D)
            if c is None or c.get("k") not in ("Call", "Cast"):
                return None
            if c.get("k") == "Cast":
                c = strip(c)
            o = operands(c) if c.get("k") == "Call" else []
            x = strip(o[0]) if o else c
            if x is None or x.get("k") != "Ref" or x.get("id") != stream:
                return None
            m = short(c) if c.get("k") == "Call" else ""
            if m in ("fail", "eof", "bad") or c.get("op") == "!":
                return not pol
            return pol

        def step2(n, s, lab):
            if lab == "exc":
                return None
            if n.i == r.i:
                return "missed" if s in ("read", "missed") else "read"
            if n.i in own and s == "read":
                return "idle"
            if n.kind == "br" and lab in (True, False) and n.ast is not None and s == "read":
                v = ofstream(n.ast)
                if v is not None and lab != v:
                    return "idle"
            return s
        F2 = flow.Flow(B, "idle", step2)
        bad = F2.states(B.exit) & {"read", "missed"}
        ck.ob("one-per-record", "bspxentries[].faces[]", not bad, r.where(), "every record read from the lump is listed%s" % ("; path " + F2.trace(B.exit, sorted(bad)[0]) if bad else ""))


def vertices(ck, P, f):
    """a face's vertices are those its edges start at"""
    par = [i for i, p in enumerate(f["params"]) if "mbsp_t" in p["t"]]
    if not par:
        return
    bsp = "P%d" % par[0]
    try:
        S = sym.summary(P, f, calls=("push_back", "insert"), assume=lambda a: False if "size()" in a and "== 0" in a else None)
    except model.AnalysisBroken:
        ck.notes.append("faces[].vertices: too large to summarise")
        return
    for h, its in S.iters.items():
        for g, eff, how in sorted(its, key=repr):
            vs = [x[-1] for x in eff if x[0] in ("push", "mutate") and "%s.dvertexes[%s.dedges[" % (bsp, bsp) in str(x[-1])]
            for v in vs:
                face = "%s.dfaces[i<%s.dfaces.size()>]" % (bsp, bsp)
                se = "%s.dsurfedges[1*%s.firstedge + 1*i<%s.numedges>]" % (bsp, face, face)
                neg = dict(g).get("%s < 0" % se)
                if neg is None:
                    pos = dict(g).get("-1*%s < 0" % se)
                    neg = None if pos is None else not pos
                want = {True: "%s.dvertexes[%s.dedges[-1*%s][1]]" % (bsp, bsp, se), False: "%s.dvertexes[%s.dedges[%s][0]]" % (bsp, bsp, se)}
                ok = v == want[neg] if neg is not None else v == want[False] and "abs" in v
                ck.ob("edge-vertices", "faces[].vertices[]", ok and how == "next", S.B.nodes[h].where() if h != "F" else model.loc(f),
                      "the k-th vertex of a face is where its k-th edge starts: of edge e the first end, of edge -e the second")


def _record(p):
    m = re.match(r"^(.*\[\])(\.[a-z_]+)?$", p)
    return m.group(1) if m else None


def _loopsrc(src, p):
    """the array a field's loop runs over"""
    if p == "nodes[].plane":
        return "dnodes"
    if p.endswith("vertices[]"):
        return None
    if " " in src:
        src = src.split(" ")[0]
    i = src.rfind("[]")
    return src[:i] if i >= 0 else None


def hexdump(ck, P, f):
    """two digits per byte over the whole buffer"""
    fs = [g for g in P.named("hex_string") if g["f"] == f["f"]]
    if len(fs) != 1:
        raise model.AnalysisBroken("the hex dump")
    g = fs[0]
    fmts = [x["v"] for x in fn_nodes(g) if x.get("k") == "Str" and "{" in x.get("v", "")]
    widths = [x for x in fmts if re.fullmatch(r"\{(0|[a-z]*)?:0(2|\{\})[xX]\}", x)]
    nib = [x for x in fn_nodes(g) if x.get("k") == "Str" and x.get("v", "").lower().startswith("0123456789abcdef")]
    ck.ob("two-digits", "hex_string", bool(widths) and len(widths) == len(fmts) or bool(nib), model.loc(g), "each byte is dumped as two hexadecimal digits (formats: %s)" % ", ".join(fmts))
    import bounds
    ps = [p for p in g["params"]]
    B = cfg.Builder(P, inline=lambda h, c, d: False, max_depth=1).build(g)
    D = flow.defs(B)
    ok = False
    for n in B.nodes:
        if n.kind == "br" and n.ast is not None:
            c = strip(n.ast)
            if c.get("k") == "Bin" and c["op"] in ("<", "!="):
                a, b = strip(c["a"]), strip(c["b"])
                if a.get("k") == "Ref" and b.get("k") == "Ref" and len(ps) > 1 and b.get("id") == B.frame0.map[ps[1]["id"]]:
                    v = [x for x in B.nodes if x.kind == "ev" and x.ast is not None and x.ast.get("k") == "Var" and x.ast["id"] == a.get("id")]
                    inc = [x for x in B.nodes if x.kind == "ev" and x.ast is not None and (x.ast.get("k") == "Un" and x.ast["op"] in ("++", "p++") or
                                                                                          x.ast.get("k") == "Bin" and x.ast["op"] == "+=" and cfg.cval(x.ast["b"]) == 1) and
                           strip(x.ast.get("e") or x.ast.get("a")).get("id") == a.get("id")]
                    ok = len(v) == 1 and cfg.cval(v[0].ast.get("init")) == 0 and len(inc) == 1
        if n.kind == "loop" and n.ast is not None and n.ast.get("k") == "RFor":
            ok = True
    if any(x.get("k") == "Call" and short(x) in ("join", "transform", "for_each") for x in fn_nodes(g)):
        ok = True
    ck.ob("whole-buffer", "hex_string", ok, model.loc(g), "the dump covers the buffer from its first to its last byte")
