"""C21: every lightmap the light tool saves has its own, exactly sized part of the light data, and its records point to it."""
import re
import model, sym
from model import AnalysisBroken
from c24 import E, V as V24, helpers

RULE = ("Symbolic summaries (path conditions and ordered memory effects, values as canonical formulas) of the functions that reserve, fill and publish the light data: reserved sizes, offsets, "
        "style lists, luxel indices, byte strides and buffer sizes are compared with the layout the statement gives, and each save path is paired with the reservation made under the same conditions.")

WRITERS = ("WriteSingleLightmap", "WriteSingleLightmap_FromDecoupled")
STAGES = WRITERS + ("SaveLightmapSurface", "SaveLitOnlyLightmapSurface", "GetFileSpace", "CalculateLightmapStyles", "FinishLightmapSurface", "WriteLitFile", "WriteLuxFile", "transfer", "erase",
                    "IntegerDownsampleImage", "FloodFillTransparent", "BoxBlurImage", "HighlightSeams", "LightmapColorsToGLMVector", "LightmapNormalsToGLMVector", "LightFace_ScaleAndClamp",
                    "Lightmap_AvgBrightness", "Lightmap_MaxBrightness", "CreateLightmapSurface", "ModelInfoForFace", "Lightmap_ForStyle", "Face_IsLightmapped", "SaveLightmapSurfaces",
                    "CreateLightmapSurfaces", "IsOutputtingSupplementaryData", "LightSurfaces")
W = "light/write.cc"
SIZE = {"P6": 1, "P7": 3, "P8": 3}


class V(V24):
    def ob(self, key, bad, text, h="F"):
        bad = [b for b in dict.fromkeys(bad) if b]
        self.ck.ob("layout", "%s:%s" % (self.what, key), not bad, self.where(h), text + (" -- " + "; ".join(x[:160] for x in bad[:3]) if bad else ""))

    def steps(self, h):
        return [E(g, e) for g, e, how in self.S.iters.get(h, ()) if how == "next"]


def one(ck, P, name, file=W, calls=(), assume=None, f=None, what=None, nparams=None):
    f = f or (P.fn(name, file, nparams=nparams) if nparams else P.fn(name, file))
    ck.count("functions")
    S = sym.summary(P, f, inline=helpers(P, f, STAGES), calls=calls, assume=assume)
    ck.count("paths", sum(len(x) for x in S.iters.values()))
    return V(ck, S, what or name), f


def unver(t):
    return re.sub(r"@\d+", "", t)


def same(S, a, b):
    """the two formulas are equal"""
    return a == b or S.plain(S.add(S.at_(a), S.at_(b), -1)) == "0"


def form(S, t):
    """polynomial of a printed formula: sum of signed products"""
    out = None
    for term in split(t, " + "):
        p = None
        for f in split(term, "*"):
            x = S.num(int(f)) if re.fullmatch(r"-?\d+", f) else S.at_(f)
            p = x if p is None else S.mul(p, x)
        out = p if out is None else S.add(out, p)
    return out


def split(t, sep):
    out, d, cur, i = [], 0, "", 0
    while i < len(t):
        c = t[i]
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        if d == 0 and t.startswith(sep, i):
            out.append(cur)
            cur = ""
            i += len(sep)
            continue
        cur += c
        i += 1
    return out + [cur]


def feq(S, a, b):
    """printed formulas a and b denote the same polynomial"""
    if a is None or b is None:
        return False
    if a == b:
        return True
    memo = S.__dict__.setdefault("_feq", {})
    if (a, b) not in memo:
        memo[a, b] = S.plain(S.add(form(S, a), form(S, b), -1)) == "0"
    return memo[a, b]


def args(t):
    """(name, operands) of a printed call"""
    m = re.match(r"([A-Za-z_:]\w*)\(", t or "")
    if not m or not t.endswith(")"):
        return None, []
    return m.group(1), split(t[m.end():-1], ",")


# ---------------------------------------------------------------- reserving
def space(ck, P):
    v, f = one(ck, P, "GetFileSpace")
    bad = []
    for e in v.paths():
        n, a = args(e.ret() or "")
        if n != "fetch_add" or len(a) < 2 or a[0] != "P0" or a[1] not in ("align_value(P1)", "P1"):
            bad.append("returns %s" % e.ret())
        elif not any(re.search(r"fetch_add\(", t) and p and re.match(r"-214748364[78] \+ 1\*", t) for t, p in e.g) and not any(
                re.search(r"fetch_add\(", t) and not p and re.match(r"214748364[67] \+ -1\*", t) for t, p in e.g):
            bad.append("an offset above the largest int is returned")
        if sum(1 for x in e.e if "fetch_add" in str(x) and x[0] not in ("let", "return", "call")):
            bad.append("the counter changes twice")
    v.ob("reserve", bad, "a reservation returns the counter from before it was advanced, in one atomic step, by the size asked for (rounded up), and fits an int")


def styles(ck, P):
    v, f = one(ck, P, "CalculateLightmapStyles", calls=("Lightmap_AvgBrightness", "Lightmap_MaxBrightness"))
    S, tgt, lst = v.S, "P6.sorted", "P3.lightmapsByStyle"
    push, sort, bad, bad2, src = [], [], [], [], set()
    for h, its in S.iters.items():
        for g, e, how in its:
            for x in e:
                if x[0] == "push" and x[1] == tgt:
                    push.append((h, dict(g), x))
                    m = re.match(r"&?(v:[\w.]+)\[", x[3])
                    src.add(m.group(1) if m else x[3])
                elif x[0] in ("append", "copy") and x[1] == tgt:
                    bad2.append("more than one map is appended")
    for h, g, x in push:
        n = x[2]
        lim = []
        for t, p in g.items():
            if not re.search(r"min\((16|4),", t) or n not in t:
                continue
            sg = {("m" if "min(" in x else "n" if n in x else "k"): x for x in split(re.sub(r" (<|==) 0$", "", t), " + ")}
            k = int(sg.get("k", "0"))
            up = sg.get("n", "").startswith("1*")
            if (t.endswith("== 0") and not p and not k) or (t.endswith("< 0") and (p and up and k >= 0 or not p and not up and k <= -1)):
                lim.append(t)
        if not lim:
            bad.append("a map is added without comparing the number of maps with the limit")
    for h, its in S.iters.items():
        for g, e, how in its:
            for x in e:
                if x[0] == "push" and x[1] in src:
                    sort.append((h, dict(g), x))
    both = [False, False]
    for h, g, x in sort:
        m = re.match(r"&(%s\[.*\])$" % re.escape(lst), x[-1])
        if not m:
            if h == "F" and any(re.search(r"game\.id", t) for t in g):
                continue        # the Quake II fallback map has style 0
            bad2.append("something that is no map of the surface is added: %s" % x[-1])
            continue
        st = "1*%s.style" % m.group(1)
        top = [int(t[1:].split(" ")[0]) for t, p in g.items() if t.endswith("< 0") and p and t.startswith("-") and st in t] + \
              [int(t.split(" ")[0]) + 1 for t, p in g.items() if t.endswith("< 0") and not p and re.match(r"\d+ \+ -1\*%s\.style < 0" % re.escape(m.group(1)), t)]
        if not top or min(top) > 256:
            bad2.append("a style above 255 is kept")
        both[0 if top and min(top) <= 255 else 1] = True
    if not push or not sort:
        raise AnalysisBroken("CalculateLightmapStyles: no map is added")
    v.ob("limit", bad, "no more maps are kept than the face's style list holds (4, or 16 in a scaled record)")
    if not both[0]:
        bad2.append("style 255 is kept for a face record")
    v.ob("styles", bad2, "only maps of the surface with a style that its record can hold are kept")
    bad = []
    for e in v.paths(hows=("end",)):
        r = e.ret() or ""
        hs = {h for h, g, x in push}
        ok = re.fullmatch(r"P6\.sorted\.size\(\)@(%s)" % "|".join(str(h) for h in hs), r) or any(
            x[0] == "loop" and x[1] in hs and feq(S, r, "1*P6.sorted.size() + 1*%s" % count_of(x[2])) for x in e.e)
        if not ok:
            bad.append("returns %s" % r)
    v.ob("count", bad, "the number of styles returned is the number of maps kept")


# ---------------------------------------------------------------- reservation and save
def lambdas(P, f):
    return sorted((g for g in P.fns.values() if g.get("lambda") and g["f"] == f["f"] and f["l"] < g["l"] <= f["le"]), key=lambda g: g["l"])


def norm(t):
    t = re.sub(r"v:0\.\d+\.(samples|extents|vanilla_extents|lightmapscale)", r"v:\1", t)
    return re.sub(r"v:0\.\d+", "v", unver(t)).replace("v:", "L.")


def compat(g1, g2):
    """no condition of one path is denied by the other (conditions on values that stay the same)"""
    a = {norm(t): p for t, p in g1}
    for t, p in g2:
        if "@" in t:
            continue
        q = a.get(norm(t))
        if q is not None and q != p:
            return False
    return True


def pairs(ck, P):
    f = P.fn("SaveLightmapSurfaces", W)
    L = []
    for g in lambdas(P, f):
        v, _ = one(ck, P, g["n"], calls=STAGES, f=g, what="SaveLightmapSurfaces")
        names = {x[1] for its in v.S.iters.values() for _, e, _ in its for x in e if x[0] == "call"}
        L.append((g, v, names))
    cnt = [x for x in L if "CalculateLightmapStyles" in x[2]]
    sav = [x for x in L if "SaveLightmapSurface" in x[2]]
    lit = [x for x in L if "SaveLitOnlyLightmapSurface" in x[2]]
    if len(cnt) != 1 or len(sav) != 1 or len(lit) != 1:
        raise AnalysisBroken("SaveLightmapSurfaces: %d counting, %d saving and %d lit-only loops" % (len(cnt), len(sav), len(lit)))
    vc, vs, vl = cnt[0][1], sav[0][1], lit[0][1]

    # lit only: finished before it is saved
    bad = []
    for e in vl.paths(hows=("end",)):
        for i, x in e.calls("SaveLitOnlyLightmapSurface"):
            o = x[2:]
            fin = [j for j, y in e.calls("FinishLightmapSurface") if y[3] == o[2]]
            if not fin or fin[0] > i:
                bad.append("a surface is saved before it is scaled")
            s = o[2].lstrip("&")
            if o[3] != s + ".extents" or o[4] != s + ".extents" or not o[1].endswith(".dfaces[P0]"):
                bad.append("saved with %s" % ", ".join(o[1:5]))
        if not e.calls("SaveLitOnlyLightmapSurface") and not e.pos(r"samples\.size\(\) == 0"):
            bad.append("a face with samples is not saved")
    vl.ob("litonly", bad, "each face with samples is scaled, then saved at its own size")

    # counting: what is reserved, from which counter, into which field
    res, bad = [], []
    for e in vc.paths(hows=("end",)):
        if e.pos(r"samples\.size\(\) == 0"):
            continue
        cal, fin = e.calls("CalculateLightmapStyles"), e.calls("FinishLightmapSurface")
        if len(cal) != 1 or len(fin) != 1 or fin[0][0] > cal[0][0] or fin[0][1][3] != cal[0][1][5]:
            bad.append("the styles are counted before the surface is scaled, or not once")
            continue
        o = cal[0][1][2:]
        val = "CalculateLightmapStyles(%s)" % ",".join(o)
        ctr, idat, surf, sup = o[5], o[6], o[3].lstrip("&"), o[2]
        zero = any(t == val + " == 0" and p for t, p in e.g)
        got = {}
        for x in e.e:
            if x[0] != "=":
                continue
            n, a = args(x[2])
            if n != "GetFileSpace":
                if x[1].startswith(idat + "."):
                    bad.append("%s = %s" % (x[1], x[2]))
                continue
            fld = x[1][len(idat) + 1:] if x[1].startswith(idat + ".") else x[1]
            which = [w for w in ("extents", "vanilla_extents") if feq(vc.S, a[1], "1*%s*numsamples(%s.%s)" % (val, surf, w))]
            if a[0] != ctr or not which:
                bad.append("reserves %s" % x[2])
                continue
            if fld in got:
                bad.append("%s is reserved twice" % fld)
            got[fld] = which[0]
        if len(e.calls("GetFileSpace")) != len(got):
            bad.append("space is reserved and forgotten")
        res.append((e, sup, zero, got, idat, surf, o[1]))
    vc.ob("reserved", bad, "after scaling, a face reserves one luxel count times its number of styles for each map it will save, and keeps each offset once")

    # saving: each save has the space reserved under the same conditions
    bad, bad2, bad3 = [], [], []
    for e in vs.paths(hows=("end",)):
        sv = e.calls("SaveLightmapSurface")
        if e.pos(r"samples\.size\(\) == 0"):
            if sv:
                bad.append("a face without samples is saved")
            continue
        mine = [r for r in res if compat(r[0].g, e.g)]
        if not sv:
            bad.append("a face with samples is not saved")
            continue
        if not mine:
            bad.append("saved on a path where nothing was counted")
            continue
        need, dec, tosup = [], None, []
        for i, x in sv:
            o = x[2:]
            face, sup, d, surf, ext, oext, idat = o[1], o[2], o[3], o[4].lstrip("&"), o[5], o[6], o[10]
            if ext != surf + ".extents" or not oext.startswith(surf + "."):
                bad.append("saved with %s and %s" % (ext, oext))
            fld = "lightofs"
            if idat.startswith("v:") and not idat.endswith("[P0]"):
                cp = [y for y in e.e[:i] if y[0] == "objcopy" and y[1] == idat]
                if not cp or not cp[-1][2].endswith("[P0]"):
                    bad.append("the data saved is not the face's")
                for y in e.e[:i]:
                    if y[0] == "=" and y[1] == idat + ".lightofs":
                        fld = re.sub(r".*\.", "", y[2])
                    elif y[0] == "=" and y[1].startswith(idat + "."):
                        bad.append("%s is changed" % y[1])
            elif not idat.endswith("[P0]"):
                bad.append("saved with the data of %s" % idat)
            need.append((fld, oext[len(surf) + 1:], sup, d))
            tosup.append(sup)
            if d != "0":
                dec = d
                if sup != "0" or not d.endswith("[P0]"):
                    bad.append("decoupled record %s" % d)
        if len({n[0] for n in need}) != len(need):
            bad2.append("two maps are saved in one place")
        for r, sup, zero, got, *_ in mine:
            if zero:
                continue
            novan = any(t == "light_options.novanilla" and p for t, p in list(e.g) + list(r.g))
            vanok = any(t == "light_options.novanilla" and not p for t, p in list(e.g) + list(r.g))
            for fld, w, s, d in need:
                if got.get(fld) != w:
                    bad2.append("%s is saved where %s was reserved" % (w, got.get(fld, "nothing")))
                if d != "0" and not novan and got.get("vanilla_lightofs") != "vanilla_extents":
                    bad2.append("the unscaled map of a decoupled face is saved where nothing was reserved")
                if s == "0" and sup != "0":
                    bad2.append("up to 16 styles are saved in a face record")
        # face record when only the scaled record was saved
        if tosup and all(s != "0" for s in tosup):
            s = tosup[-1].lstrip("&")
            last = [x for x in e.e if x[0] == "=" and x[1].endswith(".dfaces[P0].lightofs")]
            i = e.e.index(last[-1]) if last else -1
            if not last or i < sv[-1][0]:
                bad3.append("the face record keeps an old offset")
            elif last[-1][2] == "-1":
                if not any("lmscale" in t and "lightmapscale" in t and not p for t, p in e.g):
                    bad3.append("a face saved at its own scale gets offset -1")
            elif unver(last[-1][2]) != s + ".lightofs" or "@" not in last[-1][2]:
                bad3.append("the face's offset is %s" % last[-1][2])
            elif not any("lmscale" in t and "lightmapscale" in t and p for t, p in e.g):
                bad3.append("a face gets the offset of maps of another scale")
            hs = [(x[1], x[2]) for x in e.e[sv[-1][0]:] if x[0] == "loop"]
            okl = False
            for h, ix in hs:
                st = [y for y in vs.steps(h)]
                vals = {(y.last(z[1]), z[1], frozenset(y.g)) for y in st for z in y.e if z[0] == "=" and ".styles[" in z[1]}
                if vals and ix == "i<4>" and len(vals) >= 2:
                    okl = True
                for val, pl, g in vals:
                    src = s + ".styles[i<4>]"
                    inv = any(t.startswith("65535 + -1*") and p for t, p in g)
                    if not pl.endswith(".dfaces[P0].styles[i<4>]") or (unver(val) != src and not (val == "255" and inv)) or (unver(val) == src and inv):
                        bad3.append("style %s = %s" % (pl, val))
            if not okl:
                bad3.append("the face's four styles are not copied from the scaled record")
    vs.ob("paired", bad, "every face with samples is saved from its own data at its own extents")
    vs.ob("own place", bad2, "each map is saved in the space reserved for it, of exactly its size, and no two maps share one")
    vs.ob("face record", bad3, "a face whose maps are only in its scaled record gets that record's offset and first styles, or -1 when the scales differ")
    return f, vc, vs, vl


# ---------------------------------------------------------------- one face
def pointer(e, i, v, h, arg, k):
    """offset formula of the pointer passed in iteration `index` of loop h on the path e (i: position of the loop), None = null"""
    m = re.fullmatch(r"&?(v:[\w.]+)", arg)
    if m:
        var = m.group(1)
        start = [x[2] for x in e.e[:i] if x[0] == "let" and x[1] == var]
        return var, (start[-1] if start else "0")
    return None, arg


def stylelist(v, e, arr, n, none, upto=None):
    """problems of the style list written on a path; arr: place, n: entries, none: value of unused entries"""
    filled = rest = False
    for i, x in enumerate(e.e):
        if x[0] == "mutate" and x[1] in ("fill", "assign") and x[2] == arr and x[-1] == none:
            rest = not filled or rest
            continue
        if x[0] == "=" and x[1] == arr:
            return ["the style list is replaced by %s" % x[2]]
        if x[0] not in ("loop", "left"):
            continue
        h, ix = x[1], x[2]
        for y in v.steps(h):
            for z in y.e:
                if z[0] != "=" or not z[1].startswith(arr + "["):
                    continue
                at = z[1][len(arr) + 1:-1]
                m = re.fullmatch(r"P10\.sorted\[(.*)\]\.style", z[2])
                if m:
                    if not feq(v.S, m.group(1), at):
                        return ["entry %s names map %s" % (at, m.group(1))]
                    lim = any(t == "-%d + 1*%s < 0" % (n, at) and p for t, p in y.g) or at == "i<%d>" % n and any(
                        re.fullmatch(r"(?:-1\*P10\.sorted\.size\(\) \+ 1\*i<%d>|1\*i<%d> \+ -1\*P10\.sorted\.size\(\)) < 0" % (n, n), t) and p for t, p in y.g)
                    if not lim and at != "i<min(%d,P10.sorted.size())>" % n and at != "i<min(P10.sorted.size(),%d)>" % n:
                        return ["entry %s is written without a bound of %d" % (at, n)]
                    filled = True
                elif z[2] == none:
                    if at == "i<%d>" % n:
                        if any("sorted.size()" in t for t, p in y.g):
                            rest = True
                        else:
                            rest = rest or not filled
                            if filled:
                                return ["the styles are erased after they were written"]
                    else:
                        base = [c for b in ("P10.sorted.size()", "i<P10.sorted.size()>", "i<min(%d,P10.sorted.size())>" % n, "min(%d,P10.sorted.size())" % n, "min(P10.sorted.size(),%d)" % n)
                                for c in [next((x for x in re.findall(r"i'*<%d \+ -1\*%s>" % (n, re.escape(b)), at)), None)] if c and feq(v.S, at, "1*%s + 1*%s" % (b, c))]
                        if not base:
                            return ["unused entries written are %s" % at]
                        if ix not in base:
                            continue
                        rest = True
                else:
                    return ["style %s = %s" % (z[1], z[2])]
    return ([] if filled else ["no style is written"]) + ([] if rest else ["unused entries are not marked"])


def count_of(ix):
    m = re.fullmatch(r"i'*<(.*)>", ix)
    return m.group(1) if m else ix


def datawrites(v, e, fn, base, bufs, args_ok, per, empty, bad):
    """the loop in which fn is called: pointers at base + index*size in every buffer. bufs: {operand index: (buffer, factor)}"""
    seen = 0
    for i, x in enumerate(e.e):
        if x[0] not in ("loop", "left"):
            continue
        h, ix = x[1], x[2]
        st = [y for y in v.steps(h) if y.calls(fn)]
        if not st:
            continue
        if len(st) != len(v.steps(h)):
            bad.append("a map is not written")
        if x[0] == "left" or "<P10.sorted.size()>" not in ix:
            bad.append("the maps written are %s" % ix)
        seen += 1
        for y in st:
            cs = y.calls(fn)
            if len(cs) != 1:
                bad.append("a map is written %d times" % len(cs))
            o = cs[0][1][2:]
            why = args_ok(o, ix)
            if why:
                bad.append(why)
                continue
            for k, (buf, fac) in bufs.items():
                var, start = pointer(e, i, v, h, o[k], k)
                null = empty(buf)
                if var:
                    step = [z[2] for z in y.e if z[0] == "let" and z[1] == var]
                    nn = [p for t, p in y.g if t == "&" + var or t == var]
                    if nn == [False]:
                        continue
                    if null:
                        if start != "0":
                            bad.append("%s is empty but its pointer is %s" % (buf, start))
                        continue
                    m = re.fullmatch(r"&%s\[(.*)\]" % re.escape(buf), start)
                    if not m and start == "&%s" % buf:
                        m = re.match("()", "")
                    want = "%d*%s" % (fac, base)
                    if not m or not feq(v.S, m.group(1), want):
                        bad.append("%s is written from %s" % (buf, start))
                        continue
                    d = re.fullmatch(r"&%s\[(.*)\]" % re.escape("&" + var)[2:] if False else r"&%s\[(.*)\]" % re.escape(var), step[-1]) if len(step) == 1 else None
                    if not d or not feq(v.S, d.group(1), "%d*%s" % (fac, per)):
                        bad.append("%s advances by %s" % (buf, d.group(1) if d else step))
                else:
                    m = re.fullmatch(r"&%s\[(.*)\]" % re.escape(buf), start)
                    if start == "0" or (null and not m):
                        if not null:
                            bad.append("%s is not written" % buf)
                        continue
                    if not m or null or not feq(v.S, m.group(1), "%d*%s + %d*%s*%s" % (fac, base, fac, per, ix)):
                        bad.append("%s is written at %s" % (buf, start))
    return seen


def surface(ck, P):
    v, f = one(ck, P, "SaveLightmapSurface", calls=WRITERS)
    S = v.S
    bufs = {6: ("P7", 1), 7: ("P8", 3), 8: ("P9", 3)}
    B = {k: [] for k in ("none", "scaled", "styles", "face", "dec", "data", "dec data")}
    judged = 0
    for e in v.paths(hows=("end",)):
        g = dict(e.g)
        if g.get("P10.sorted.size() == 0"):
            if any(x[0] in ("=", "push", "call") or x[0] == "mutate" for x in e.e):
                B["none"].append("a face without maps is changed")
            continue
        rgb, sup, dec, novan = g.get("P0.loadversion.game.has_rgb_lightmap"), g.get("&P2"), g.get("&P3"), g.get("light_options.novanilla")
        emp = {b: g.get(b + ".size() == 0") for b in ("P7", "P8", "P9")}
        if rgb is None:
            raise AnalysisBroken("SaveLightmapSurface: the kind of light data is not distinguished")
        # what SaveLightmapSurfaces allocates
        if (rgb and emp["P7"] is False) or (rgb and emp["P8"]) or (not rgb and emp["P7"]):
            continue
        emp = {"P7": rgb, "P8": emp["P8"] if not rgb else False, "P9": emp["P9"]}
        if sup and dec:
            continue            # never passed together (see the save loop)
        judged += 1
        ofs = ("3*%s" if rgb else "1*%s")
        here = ofs % "P10.lightofs"
        get = lambda p: clean(S, e.last(p))
        if sup:
            if e.last("P2.extent[0]") != "width(P6)" or e.last("P2.extent[1]") != "height(P6)":
                B["scaled"].append("size %s x %s" % (e.last("P2.extent[0]"), e.last("P2.extent[1]")))
            B["styles"] += stylelist(v, e, "P2.styles", 16, "65535")
            if not feq(S, get("P2.lightofs"), here):
                B["scaled"].append("offset %s" % get("P2.lightofs"))
            if e.last("P2.lmscale") != "P4.lightmapscale":
                B["scaled"].append("scale %s" % e.last("P2.lmscale"))
            if any(x[0] == "=" and x[1].startswith("P1.") for x in e.e):
                B["scaled"].append("the face record is changed as well")
        else:
            B["styles"] += stylelist(v, e, "P1.styles", 4, "255")
            if any(x[0] == "=" and x[1].startswith("P2.") for x in e.e):
                B["scaled"].append("a scaled record is changed that was not asked for")
        if dec:
            if not feq(S, get("P3.offset"), here):
                B["dec"].append("offset %s" % get("P3.offset"))
            if e.last("P3.lmwidth") != "width(P6)" or e.last("P3.lmheight") != "height(P6)":
                B["dec"].append("size %s x %s" % (e.last("P3.lmwidth"), e.last("P3.lmheight")))
            want = "-1" if novan else ofs % "P10.vanilla_lightofs"
            if novan is None or not feq(S, get("P1.lightofs"), want):
                B["face"].append("offset %s%s" % (get("P1.lightofs"), " without a vanilla map" if novan else ""))
        elif not sup and not feq(S, get("P1.lightofs"), here):
            B["face"].append("offset %s" % get("P1.lightofs"))
        ok = lambda o, ix: None if o[0] == "&P0" and o[1] == "&P1" and o[2] == "&P4" and o[3] == "&P10.sorted[%s]" % ix and o[4:6] == ("width(P5)", "height(P5)") and o[9] == "P6" else "a map is written with " + ", ".join(o[2:])
        n = datawrites(v, e, WRITERS[0], "P10.lightofs", bufs, lambda o, ix: ok(tuple(o), ix), "numsamples(P6)", lambda b: emp[b], B["data"])
        if n != 1:
            B["data"].append("the maps are written in %d loops" % n)
        ok2 = lambda o, ix: None if o[2] == "&P4" and o[3] == "&P10.sorted[%s]" % ix and o[4:6] == ("width(P4.vanilla_extents)", "height(P4.vanilla_extents)") else "an unscaled map is written with " + ", ".join(o[2:])
        n = datawrites(v, e, WRITERS[1], "P10.vanilla_lightofs", bufs, lambda o, ix: ok2(tuple(o), ix), "numsamples(P4.vanilla_extents)", lambda b: emp[b], B["dec data"])
        if n != (1 if dec and novan is False else 0):
            B["dec data"].append("the unscaled maps are written in %d loops" % n)
    ck.count("save paths", judged)
    if judged < 8:
        raise AnalysisBroken("SaveLightmapSurface: %d paths" % judged)
    v.ob("no maps", B["none"], "a face without maps keeps its cleared record")
    v.ob("scaled record", B["scaled"], "the scaled record gets the width, height, scale and offset of the maps saved, and only when asked for")
    v.ob("style list", B["styles"], "the record's styles are those of the maps in order, and every other slot is marked unused")
    v.ob("face record", B["face"], "the face's offset is where its maps are saved (the unscaled ones of a decoupled face), or -1")
    v.ob("decoupled record", B["dec"], "the decoupled record gets the size and offset of the maps saved")
    v.ob("maps", B["data"], "map k is written k lightmaps after the offset in every buffer that is in use, three bytes per luxel in colours and directions")
    v.ob("unscaled maps", B["dec data"], "the unscaled maps of a decoupled face are written at their own offset, k unscaled lightmaps after it")


def clean(S, t):
    """&X[a] - &X[0] -> a"""
    if t is None:
        return t
    m = re.search(r"1\*&(\w+)\[(.*?)\] \+ -1\*&\1\[0\]", t)
    return m.group(2) if m and m.group(0) == t else t


def litonly(ck, P):
    v, f = one(ck, P, "SaveLitOnlyLightmapSurface", calls=WRITERS)
    S, bad, bad2, n = v.S, [], [], 0
    for e in v.paths(hows=("end",)):
        hs = [(i, x[1], x[2]) for i, x in enumerate(e.e) if x[0] in ("loop", "left") and any(y.calls(WRITERS[0]) for y in v.steps(x[1]))]
        if not hs:
            if not e.pos(r"^1 \+ 1\*P1\.lightofs == 0"):
                bad.append("a face with light data is not written")
            continue
        n += 1
        if not fits(S, e.g, "P1.lightofs", "P5.size()", "numsamples(P4)"):
            bad2.append("the maps may lie outside the light data")
        for i, h, ix in hs:
            if ix != "i<4>":
                bad.append("the styles looked at are %s" % ix)
            for y in v.steps(h):
                if y.pos(r"^255 \+ -1\*P1\.styles\[i<4>\] == 0"):
                    bad.append("style 255 does not end the list")
                cs = y.calls(WRITERS[0])
                if len(cs) > 1:
                    bad.append("written twice")
                ptr = {6: None, 7: None, 8: None}
                if cs:
                    o = cs[0][1][2:]
                    if o[1] != "&P1" or o[2] != "&P2" or not o[3].startswith("&P2.lightmapsByStyle[") or tuple(o[4:6]) != ("width(P3)", "height(P3)") or o[9] != "P4":
                        bad.append("written with " + ", ".join(o[1:]))
                    m = o[3].lstrip("&")
                    if not any(x[0] == "left" for x in y.e):
                        bad.append("the map written is not the one found")
                else:
                    o = None
                for k, (buf, fac) in {6: ("P5", 1), 7: ("P6", 3), 8: ("P7", 3)}.items():
                    var = LIT.get((id(v), k))
                    if o:
                        mm = re.fullmatch(r"&?(v:[\w.]+)", o[k])
                        if not mm:
                            d = re.fullmatch(r"&%s\[(.*)\]" % buf, o[k])
                            if o[k] != "0" and (not d or not feq(S, d.group(1), "%d*P1.lightofs + %d*numsamples(P4)*%s" % (fac, fac, ix))):
                                bad.append("%s is written at %s" % (buf, o[k]))
                            continue
                        var = mm.group(1)
                    if var is None:
                        var = next((re.fullmatch(r"&?(v:[\w.]+)", z[1][2 + k]).group(1) for w in v.steps(h) for _, z in w.calls(WRITERS[0]) for _ in [0] if re.fullmatch(r"&?(v:[\w.]+)", z[2 + k])), None) if False else first_var(v, h, k)
                    if var is None:
                        continue
                    start = [x[2] for x in e.e[:i] if x[0] == "let" and x[1] == var]
                    start = start[-1] if start else "0"
                    null = e.pos(r"^%s\.size\(\) == 0" % buf)
                    nn = [p for t, p in y.g if t in ("&" + var, var)]
                    if nn == [False]:
                        continue
                    if null:
                        if start != "0":
                            bad.append("%s is empty but its pointer is %s" % (buf, start))
                        continue
                    d = re.fullmatch(r"&%s\[(.*)\]" % buf, start)
                    if not d or not feq(S, d.group(1), "%d*P1.lightofs" % fac):
                        bad.append("%s is written from %s" % (buf, start))
                        continue
                    st = [z[2] for z in y.e if z[0] == "let" and z[1] == var]
                    d = re.fullmatch(r"&%s\[(.*)\]" % re.escape(var), st[-1]) if len(st) == 1 else None
                    if not d or not feq(S, d.group(1), "%d*numsamples(P4)" % fac):
                        bad.append("%s advances by %s" % (buf, st))
        # the inner search compares styles
        for i, h, ix in hs:
            for y in v.steps(h):
                for z in y.e:
                    if z[0] == "left":
                        if not any(how == "left" and any("style" in t and p for t, p in g) for g, _, how in v.S.iters.get(z[1], ())):
                            bad.append("the map found is not chosen by style")
    if not n:
        raise AnalysisBroken("SaveLitOnlyLightmapSurface: no data loop")
    v.ob("maps", bad, "the maps go to the offset and styles the face already has, k lightmaps after its offset, three bytes per luxel in colours and directions")
    v.ob("bounds", bad2, "nothing is written outside the light data the map has")


def fits(S, g, ofs, size, one):
    """a condition bounds offset + styles * lightmap by the size of the data"""
    for t, p in g:
        m = re.fullmatch(r"(.*) < 0", t)
        if not m or ofs not in t or size not in t or one not in t:
            continue
        f = {x: q for x, q in ((x.replace("1*", "", 1) if re.match(r"-?1\*", x) else x, x.startswith("-")) for x in split(m.group(1), " + "))}
        neg = lambda y: [q for x, q in f.items() if y in x]
        a, b, c = neg(ofs), neg(size), neg(one)
        # ofs + n*one - size - 1 < 0 true, or size - ofs - n*one < 0 false
        k = next((int(x) for x in split(m.group(1), " + ") if re.fullmatch(r"-?\d+", x)), 0)
        cnt = [x for x in split(m.group(1), " + ") if one in x]
        full = any(re.search(r"(?:^|\*)-?4\*|n@\d+|i'*<4>", x) for x in cnt)
        if full and p and a == [False] and c == [False] and b == [True] and k >= -1:
            return True
        if full and not p and a == [True] and c == [True] and b == [False] and k <= 0:
            return True
    return False


LIT = {}


def first_var(v, h, k):
    for y in v.steps(h):
        for _, z in y.calls(WRITERS[0]):
            m = re.fullmatch(r"&?(v:[\w.]+)", z[2 + k])
            if m:
                return m.group(1)


# ---------------------------------------------------------------- one map
def cells(v, e, k):
    """(bytes written: offset -> value, how far the pointer is advanced) of a buffer in one iteration"""
    out, adv = {}, "0"
    add = lambda a, b: str(int(a) + int(b)) if a.isdigit() and b.isdigit() else a if b == "0" else b if a == "0" else "?"
    P_ = r"&?%s(?:@\d+)?" % k

    def off(t):
        """the distance from the pointer, or None"""
        ts = t.split(" + ")
        me = [z for z in ts if re.fullmatch(r"(?:1\*|\*)?%s" % P_, z)]
        return None if len(me) != 1 else " + ".join(z for z in ts if z is not me[0]) or "0"
    for x in e.e:
        if x[0] in ("loop", "left"):
            st = [y for y in v.steps(x[1]) if cells(v, y, k)[0]]
            if not st:
                continue
            m = re.fullmatch(r"i'*<(\d+)>", x[2])
            if len(st) != 1 or not m or int(m.group(1)) > 4 or x[0] == "left":
                return out, "?"
            c, a = cells(v, st[0], k)
            whole = x[2] in a  # counted from the start of the loop
            for n in range(int(m.group(1))):
                for o, val in c.items():
                    o = sub1(o, x[2], n)
                    out[o if whole else add(adv, o)] = sub1(val, x[2], n)
                if not whole:
                    adv = add(adv, a)
            if whole:
                adv = sub1(a, x[2], int(m.group(1)) - 1)
            continue
        if x[0] != "=":
            continue
        if x[1] == k:
            m = re.fullmatch(r"(\d+) \+ 1\*%s(?:\[(\d+)\])?" % P_, x[2]) or re.fullmatch(r"()%s\[(\d+)\]" % P_, x[2])
            adv = str(int(m.group(1) or 0) + int(m.group(2) or 0)) if m else off(x[2]) or "?" + x[2]
            continue
        m = re.fullmatch(r"%s\[(.*)\]" % P_, x[1])
        o = m.group(1) if m else off(x[1])
        if o is not None:
            out[o] = x[2]
    return out, adv


def sub1(t, ix, n):
    """the formula with a loop index replaced by a number"""
    t = re.sub(r"1\*%s(?!\w)" % re.escape(ix), str(n), t).replace(ix, str(n))
    if re.fullmatch(r"\d+(?: \+ \d+)+", t):
        t = str(sum(int(x) for x in t.split(" + ")))
    return t


def luxels(v, e, hts, wid, check, bad, used):
    """one luxel: each buffer in use gets its bytes in order"""
    (ti, si) = hts
    for k, n in SIZE.items():
        c, adv = cells(v, e, k)
        name = {"P6": "light", "P7": "colours", "P8": "directions"}[k]
        if k not in used:
            if c:
                bad.append("%s that are not wanted are written" % name)
            continue
        base = {}
        if adv == str(n):
            base = {str(j): j for j in range(n)}
        elif adv == "0":
            base = {next((t for t in c if feq(v.S, t, "%d*%s*%s + %d*%s + %d" % (n, ti, wid, n, si, j))), "?"): j for j in range(n)}
        if not base or set(c) != set(base):
            bad.append("%s: bytes %s are written and the pointer moves by %s" % (name, ", ".join(sorted(c)) or "none", adv))
            continue
        for t, j in base.items():
            check(k, j, c[t], bad)


def buffers(ck, P, name, calls):
    """the summary for every choice of the buffers in use"""
    for n in range(1, 8):
        used = {k for i, k in enumerate(SIZE) if n >> i & 1}

        def assume(a):
            m = re.fullmatch(r"&?(P[678])(?:@\d+)?( == 0)?", a)
            if m:
                return (m.group(1) in used) != bool(m.group(2))
        yield (used,) + one(ck, P, name, calls=calls, assume=assume)


def strip(x):
    while x and x.get("k") == "Cast":
        x = x.get("e")
    return x


def rootvar(x):
    while x:
        x = strip(x)
        if x.get("k") == "Ref":
            return x.get("id")
        if x.get("k") == "Call":
            x = x.get("obj") or (x["args"][0] if x.get("args") else None)
        elif x.get("k") in ("Member", "Un"):
            x = x.get("b") or x.get("e") or x.get("obj")
        else:
            return None


def image_reads(f):
    """(variable, index expression) of every element read of a vector of colours"""
    out = []
    for x in model.fn_nodes(f):
        if x.get("k") == "Call" and re.match(r"std::vector<qvec<float, 4>.*::(at|operator\[\])$", x.get("n") or ""):
            a = list(x.get("args") or [])
            o = x.get("obj") or (a.pop(0) if len(a) == 2 else None)
            if a:
                out.append((rootvar(o), a[-1]))
    return out


def sources(f, root):
    """names of the functions whose results a variable holds, in source order"""
    out = []
    for x in model.fn_nodes(f):
        v = None
        if x.get("k") == "Var" and x.get("id") == root:
            v = x.get("init")
        elif x.get("k") == "Call" and x.get("op") == "=" and rootvar((x.get("args") or [None])[0]) == root:
            v = x["args"][1]
        elif x.get("k") == "Bin" and x.get("op") == "=" and rootvar(x.get("a") or x.get("l_") or {}) == root:
            v = x.get("b")
        while v:
            v = strip(v)
            if v.get("k") == "Construct" and v.get("args"):
                v = v["args"][0]
                continue
            if v.get("k") == "Call":
                out.append((v.get("n") or "").split("::")[-1])
            break
    return out


def evalix(S, x, env, d=0):
    x = strip(x)
    if d > 12 or not x:
        return None
    if x.get("k") == "Int":
        return str(x["v"])
    if x.get("k") == "Ref":
        return env.get("v:0.%s" % x.get("id"))
    if x.get("k") == "Paren":
        return evalix(S, x.get("e"), env, d + 1)
    if x.get("k") == "Bin" and x.get("op") in ("+", "-", "*", "/"):
        o = [y for y in (x.get("a"), x.get("b")) if y] or x.get("c") or []
        o = [evalix(S, y, env, d + 1) for y in o]
        if len(o) != 2 or None in o:
            return None
        if x["op"] == "/":
            return "div(%s,%s)" % tuple(o)
        a, b = form(S, o[0]), form(S, o[1])
        return S.plain(S.mul(a, b) if x["op"] == "*" else S.add(a, b, -1 if x["op"] == "-" else 1))
    return None


def oneloop(v, outer, inner):
    """(outer head, inner head, index symbols) of the two nested loops over height x width"""
    for its in v.S.iters.values():
        for g, e, how in its:
            for x in e:
                if x[0] == "loop" and re.fullmatch(r"i'*<%s>" % re.escape(outer), x[2]):
                    for y in v.steps(x[1]):
                        for z in y.e:
                            if z[0] == "loop" and re.fullmatch(r"i'*<%s>" % re.escape(inner), z[2]):
                                return x[1], z[1], x[2], z[2]
    return None


def single(ck, P):
    calls = ("IntegerDownsampleImage", "FloodFillTransparent", "BoxBlurImage", "HighlightSeams", "LightmapColorsToGLMVector", "LightmapNormalsToGLMVector")
    w, h = "width(P9)", "height(P9)"
    bad, bad3, judged = [], [], 0
    for used, v, f in buffers(ck, P, "WriteSingleLightmap", calls):
        S = v.S
        L = oneloop(v, h, w)
        if not L:
            nest = [x for its in S.iters.values() for g, e, how in its for x in e if x[0] == "loop"]
            if any(x[0] == "=" and re.match(r"P[678]\b", x[1]) for its in S.iters.values() for g, e, how in its for x in e):
                v.ob("luxel", ["the luxels run over %s" % ", ".join(sorted({x[2] for x in nest}))], "every luxel of the record's height x width is written")
                return
            raise AnalysisBroken("WriteSingleLightmap: no loops over height x width")
        judged += luxel(v, L, w, h, used, bad)
        images(v, f, P, L[0], L, w, h, bad3)
    ck.count("luxel paths", judged)
    if judged < 6:
        raise AnalysisBroken("WriteSingleLightmap: %d luxel paths" % judged)
    v.ob("luxel", bad, "every luxel's bytes are the colour computed at its position (the brightest component, limited to 0..255, as its light), in rows of the record's width", L[1])
    v.ob("images", bad3, "the images have the map's size times the oversampling, are reduced by that factor, and the reduced ones are read at the luxel's own position")


def luxel(v, L, w, h, used, bad):
    S = v.S
    ho, hi, ti, si = L

    def idx(t):
        """image variable, index and component of a colour"""
        m = re.fullmatch(r"(v:[\w.]+|[A-Za-z]\w*\(.*\))\[(.*)\]\[(\d)\]", t)
        return m.groups() if m else (None, None, None)

    wants = ["1*P4*div(1*P5*%s,%s) + 1*div(1*P4*%s,%s)" % (ti, h, si, w)]

    def check(k, j, val, bad):
        if k == "P7":
            b, t, c = idx(val)
            if t is None or c != str(j) or not any(feq(S, t, x) for x in wants):
                bad.append("colour byte %d is %s" % (j, val))
        elif k == "P6":
            if val in ("0", "255"):
                return
            n, a = args(val)
            a = split(a[0][1:-1], ",") if a and a[0].startswith("{") else a
            m = [x for x in a if idx(x)[1]]
            rest = [x for x in a if not idx(x)[1] and x != "0"]
            if n != "max" or rest or {idx(x)[2] for x in m} != {"0", "1", "2"} or any(not any(feq(S, idx(x)[1], y) for y in wants) for x in m):
                if n == "clamp" and a[1:] == ["0", "255"]:
                    return check(k, j, a[0], bad)
                if n in ("min", "max") and any(x in ("0", "255") for x in a):
                    return [check(k, j, x, bad) for x in a if x not in ("0", "255")]
                bad.append("light is %s" % val)
    for e in v.steps(hi):
        luxels(v, e, (ti, si), w, check, bad, used)
        # clamped
        c, _ = cells(v, e, "P6")
        for val in c.values():
            if val not in ("0", "255") and "clamp(" not in val and "min(" not in val:
                core = re.escape(val)
                if not any(t.startswith("255 + -1*max(") and not p for t, p in e.g) or not any(t.startswith("1*max(") and t.endswith("< 0") and not p or t.startswith("max(") and t.endswith("< 0") and not p for t, p in e.g):
                    bad.append("light is stored without being limited to 0..255")
        c, _ = cells(v, e, "P8")
        for j, val in sorted(c.items()):
            if val == "255":
                if not any(re.match(r"-12[78] \+ 128\*", t) and not p or re.match(r"12[78] \+ -128\*.* < 0", t) and p for t, p in e.g):
                    bad.append("direction %s is 255 for no reason" % j)
                continue
            m = re.search(r"\[(\d)\]", val)
            top = [t for t, p in e.g if (re.match(r"-12[78] \+ 128\*", t) and p or re.match(r"12[78] \+ -128\*.* < 0", t) and not p) and m and m.group(0) in t]
            if not top and "min(" not in val and "clamp(" not in val:
                bad.append("direction %s is stored without being limited to 255" % j)
            if adj(j) is not None and m and m.group(1) != str(adj(j)) and len(c) == 3 and set(c) == {"0", "1", "2"}:
                bad.append("direction byte %s is component %s" % (j, m.group(1)))
    return len(v.steps(hi))


def images(v, f, P, ho, L, w, h, bad):
    S, hi = v.S, L[1]
    wants = ["1*P4*div(1*P5*%s,%s) + 1*div(1*P4*%s,%s)" % (L[2], h, L[3], w)]
    env = {}
    for e in v.steps(hi) + v.steps(ho) + v.paths():
        for x in e.e:
            if x[0] == "let":
                env.setdefault(x[1], x[2])
    mine = helpers(P, f, STAGES)
    for g_ in [f] + [g for g in P.fns.values() if g["n"] in mine and g["f"] == f["f"]]:
        for root, ixe in image_reads(g_):
            src = [z for z in sources(g_, root) if z]
            if src and any(z != "IntegerDownsampleImage" for z in src[-1:]):
                bad.append("a luxel is read from an image that was not reduced")
            t = evalix(S, ixe, env)
            if t is not None and not any(feq(S, t, y) for y in wants):
                bad.append("a luxel is read at %s" % t)
    ex = lambda t, p: feq(S, t, "1*%s*light_options.extra" % p)
    for e in v.paths(hows=("end",)):
        cur = None
        if sum(1 for x in e.e if x[0] == "loop" and x[1] == ho) != 1:
            bad.append("the luxels are not written once")
        for i, x in e.calls("LightmapColorsToGLMVector") + e.calls("LightmapNormalsToGLMVector"):
            if tuple(x[2:4]) != ("&P2", "&P3"):
                bad.append("another map is read: %s" % (x[2:],))
        for n in ("IntegerDownsampleImage", "FloodFillTransparent", "BoxBlurImage", "HighlightSeams"):
            for i, x in e.calls(n):
                o = x[2:]
                if not ex(o[1], "P4") or not ex(o[2], "P5") or (n == "IntegerDownsampleImage" and o[3] != "light_options.extra"):
                    bad.append("%s is told %s" % (n, ", ".join(o[1:])[:120]))
        ds = [x[2] for i, x in e.calls("IntegerDownsampleImage")]
        if not [d for d in ds if "LightmapColorsToGLMVector(" in d] and not any(t.startswith("1 + -1*light_options.extra") for t, p in e.g):
            bad.append("the colours are not reduced to the map's size")


def unscaled(ck, P):
    """the unscaled map of a decoupled face"""
    bad, bad2, judged = [], [], 0

    def check2(k, j, val, bad):
        if k == "P7" and not val.endswith("[%d]" % j):
            bad.append("colour byte %d is %s" % (j, val))
        if k != "P7" and not re.fullmatch(r"\d+|.*\[.*\]|max.*|min.*|clamp.*", val):
            bad.append("byte %d is %s" % (j, val))
    for used, v, f in buffers(ck, P, "WriteSingleLightmap_FromDecoupled", ("LightmapColorsToGLMVector",)):
        L = oneloop(v, "P5", "P4")
        if not L:
            raise AnalysisBroken("WriteSingleLightmap_FromDecoupled: no loops over height x width")
        ho, hi, ti, si = L
        for e in v.steps(hi):
            judged += 1
            luxels(v, e, (ti, si), "P4", check2, bad, used)
            lets = [x[2] for x in e.e if x[0] == "let"]
            ixs = [t for t in lets if "clamp(" in t and " + " in t and "P2.width" in t and t.count("*P2.width*") == 1]
            for t in ixs:
                m = re.fullmatch(r"1\*P2\.width\*clamp\((.*),0,-1 \+ 1\*P2\.height\) \+ 1\*clamp\((.*),0,-1 \+ 1\*P2\.width\)", t)
                if not m:
                    bad2.append("a colour is read at %s" % t)
                    continue
                y, x = re.sub(r"^1 \+ 1\*", "", m.group(1)), re.sub(r"^1 \+ 1\*", "", m.group(2))
                if not (y.startswith("floor(") and y.endswith("[1])") and x.startswith("floor(") and x.endswith("[0])")):
                    bad2.append("a colour is read at row %s, column %s" % (y, x))
            if len(set(ixs)) != 4:
                bad2.append("%d neighbours are mixed" % len(set(ixs)))
    ck.count("luxel paths", judged)
    if judged < 4:
        raise AnalysisBroken("WriteSingleLightmap_FromDecoupled: %d luxel paths" % judged)
    v.ob("luxel", bad, "every luxel of the unscaled map gets its bytes in rows of its width", hi)
    v.ob("source", bad2, "it is mixed from the four luxels around its position, limited to the map they come from", hi)


def downsample(ck, P):
    v, f = one(ck, P, "IntegerDownsampleImage")
    S, bad, n = v.S, [], 0
    for e in v.paths(hows=("end",)):
        if e.ret() == "P0":
            if not e.pos(r"^(?:1 \+ -1\*P3|-1 \+ 1\*P3) == 0"):
                bad.append("the image is returned as it is")
            continue
        r = e.ret()
        for its in S.iters.values():
            for g, ef, how in its:
                for x in ef:
                    if x[0] == "=" and r and x[1].startswith(r + "["):
                        n += 1
                        t = x[1][len(r) + 1:-1]
                        m = [z for z in re.findall(r"i'*<div\(P[12],P3\)>", t)]
                        y_, x_ = [z for z in m if "P2" in z], [z for z in m if "P1" in z]
                        if len(y_) != 1 or len(x_) != 1 or not feq(S, t, "1*div(P1,P3)*%s + 1*%s" % (y_[0], x_[0])):
                            bad.append("the result is stored at %s" % t)
    if not n:
        raise AnalysisBroken("IntegerDownsampleImage: nothing is stored")
    v.ob("result", bad, "the reduced image has width / factor columns and height / factor rows")
    reads, bad = 0, []
    for its in S.iters.values():
        for g, ef, how in its:
            for x in ef:
                for t in re.findall(r"P0\[((?:[^][]|\[[^][]*\])*)\]", str(x[2:])) if x[0] in ("let", "=", "|=", "+=", "call") else []:
                    reads += 1
    inner = [h for h, its in S.iters.items() if h != "F" and any(x[0] == "let" and "div(P2,P3)>" in x[2] and "P3*" in x[2] for g, ef, how in its for x in ef)]
    ok = False
    for h in inner:
        for y in v.steps(h):
            xs = [x[2] for x in y.e if x[0] == "let"]
            k0 = [re.findall(r"i'*<P3>", t) for t in xs]
            cx = [t for t in xs if re.fullmatch(r"1\*P3\*i'*<div\(P1,P3\)> \+ 1\*i'*<P3>", t)]
            cy = [t for t in xs if re.fullmatch(r"1\*P3\*i'*<div\(P2,P3\)> \+ 1\*i'*<P3>", t)]
            other = [t for t in xs if "P3*" in t and t not in cx + cy and "P1*" not in t]
            if cx and cy:
                ok = True
                a, b = re.findall(r"i'*<P3>", cx[0])[0], re.findall(r"i'*<P3>", cy[0])[0]
                if a == b:
                    bad.append("rows and columns of a block run together")
            if other:
                bad.append("a luxel is read at %s" % other[0])
    if not ok:
        bad.append("the block of a luxel is not the factor x factor samples at its position")
    v.ob("block", bad, "each reduced luxel is made of the factor x factor samples at its own position")


def adj(j):
    return int(j) if str(j).isdigit() else None


# ---------------------------------------------------------------- scaling
def nonneg(t, seen=0):
    """the formula is not negative for settings that are not"""
    t = t.strip()
    while t.startswith("(") and t.endswith(")") and len(split(t, "\0")) == 1 and paired(t):
        t = t[1:-1]
    if re.fullmatch(r"\d+(\.\d+)?(e[-+]?\d+)?", t):
        return True
    if re.fullmatch(r"(?:P0|v:[\w.]+)\.cfg\.\w+|P0\.maxlight|P0\.lightcolorscale|light_options\.\w+", t):
        return True
    parts = split(t, " + ")
    if len(parts) > 1:
        return all(nonneg(p) for p in parts)
    parts = split(t, "*")
    if len(parts) > 1:
        return all(nonneg(p) for p in parts)
    parts = split(t, "/")
    if len(parts) > 1:
        return all(nonneg(p) for p in parts)
    n, a = args(t)
    if n == "max":
        a = split(a[0][1:-1], ",") if len(a) == 1 and a[0].startswith("{") else a
        return (len(a) > 1 and any(nonneg(x) for x in a)) or all(nonneg(x) for x in a)
    if n == "clamp" and len(a) == 3:
        return nonneg(a[1])
    if n in ("pow", "sqrt", "min", "abs", "fabs", "exp"):
        return n in ("abs", "fabs", "exp") or nonneg(a[0]) and (n != "min" or all(nonneg(x) for x in a))
    if re.match(r"\{.*\}$", t):
        return all(nonneg(x) for x in split(t[1:-1], ","))
    return False


def paired(t):
    d = 0
    for i, c in enumerate(t):
        d += (c == "(") - (c == ")")
        if d == 0 and i < len(t) - 1:
            return False
    return True


def scale(ck, P):
    v, f = one(ck, P, "LightFace_ScaleAndClamp")
    S, bad, bad2, n = v.S, [], [], 0
    for h, its in S.iters.items():
        for g, e, how in its:
            places = [x[1] for x in e if x[0] == "=" and x[1].endswith(".color")]
            if not places:
                continue
            n += 1
            E_ = E(g, e)
            C = places[0]
            if "@" not in "".join(x[2] for x in e if x[0] == "=") and "cfg.rangescale" not in E_.last(C) or not any(x[0] == "=" and "cfg.rangescale" in x[2] for x in e):
                bad2.append("a colour is not scaled")
            if not re.fullmatch(r"P0\.lightmapsByStyle\[i'*<P0\.lightmapsByStyle\.size\(\)>\]\.samples\[i'*<P0\.(?:lightmapsByStyle\[.*\]\.)?samples\.size\(\)>\]\.color", C):
                bad.append("the samples scaled are %s" % C)
            last = E_.last(C)
            # a gamma loop over the components leaves versioned reads: the loop must keep the sign
            for m in sorted(set(re.findall(re.escape(C) + r"@(\d+)", str(g) + str(e))), key=int):
                ok = False
                for hh, its2 in S.iters.items():
                    for g2, e2, how2 in its2:
                        for x in e2:
                            if x[0] == "=" and x[1].startswith(C + "["):
                                ok = nonneg(re.sub(re.escape(x[1]) + r"(?:@\d+)?", "0", x[2])) or nonneg(x[2].replace(x[1], "0"))
                                if not ok:
                                    bad.append("a component becomes %s" % x[2][-120:])
            sub = lambda t: re.sub(re.escape(C) + r"@\d+", "0", t)
            if not nonneg(sub(last)):
                bad.append("the colour stored may be negative: %s" % last[-100:])
            # the last value is at most 255
            before = [x[2] for x in e if x[0] == "=" and x[1] == C]
            ok = False
            vals = before + [C + "@%s" % m for m in re.findall(re.escape(C) + r"@(\d+)", str(g) + str(e))]
            for t, p in g:
                m = re.fullmatch(r"255 \+ -1\*max\((.*)\) < 0", t)
                if not m:
                    continue
                X = m.group(1)
                if not p and (X == before[-1] or (X.startswith(C + "@") and re.fullmatch(re.escape(C) + r"@\d+", X))):
                    ok = True
                if p and same_ratio(S, before[-1], X):
                    ok = True
            if not ok and re.match(r"min\(255,|clamp\(", before[-1]):
                ok = True
            if not ok:
                bad2.append("the colour stored is %s" % before[-1][:140])
    if not n:
        raise AnalysisBroken("LightFace_ScaleAndClamp: no colour is stored")
    v.ob("negative", bad, "after scaling no component of any sample of any map is negative")
    v.ob("clamp", bad2, "after scaling the brightest component of a sample is at most 255")
    v, f = one(ck, P, "FinishLightmapSurface", calls=("LightFace_ScaleAndClamp",))
    bad = []
    for e in v.paths(hows=("end",)):
        if [x[2] for i, x in e.calls("LightFace_ScaleAndClamp")] != ["&P1"]:
            bad.append("a surface is not scaled once")
    v.ob("scaled", bad, "finishing a surface scales and limits all its maps once")


def ratio(t):
    p = split(t, "/")
    strip = lambda x: x[1:-1] if x.startswith("(") and paired(x) else x
    return (strip(p[0]), strip(p[1])) if len(p) == 2 else (t, "1")


def same_ratio(S, t, X):
    """t is 255*X/max(X)"""
    (a, b), (n, d) = ratio(t), ratio(X)
    lhs = S.mul(S.mul(form(S, a), S.at_("max(%s)" % X)), form(S, d))
    rhs = S.mul(S.mul(form(S, n), S.num(255)), form(S, b))
    return S.plain(S.add(lhs, rhs, -1)) == "0"


# ---------------------------------------------------------------- publishing
def publish(ck, P, f, vc, vs, vl):
    v = None
    calls = ("WriteLitFile", "WriteLuxFile", "transfer", "erase", "resize")
    B = {k: [] for k in ("order", "alloc", "lump", "bspx", "files", "litonly", "lit2")}
    ncfg = 0
    for lit in (False, True):
        for rgb in (False, True):
            for lit2 in (False, True):
                if lit and rgb:
                    continue

                def assume(a):
                    if a == "light_options.litonly":
                        return lit
                    if a.endswith("game.has_rgb_lightmap"):
                        return rgb
                    if "samples.size() == 0" in a:
                        return True
                    m = re.fullmatch(r"(-?\d+) \+ (-?)1\*light_options\.write_litfile == 0", a)
                    if m and m.group(1) in ("4", "-4"):
                        return lit2
                v, _ = one(ck, P, "SaveLightmapSurfaces", calls=calls, assume=assume)
                cfg = "%s%s%s" % ("litonly " if lit else "", "rgb" if rgb else "grey", " lit2" if lit2 else "")
                judge(v, lit, rgb, lit2, B, cfg, vc, vs, vl)
                ncfg += 1
    ck.count("configurations", ncfg)
    v.ob("order", B["order"], "space is counted for all faces first, then the buffers get their size, then the faces are saved, then the data is published")
    v.ob("sizes", B["alloc"], "the buffers hold all the space that was reserved, three bytes per luxel for colours and directions, and exist when they are published")
    v.ob("light data", B["lump"], "the map's light data becomes the buffer the offsets refer to")
    v.ob("lumps", B["bspx"], "RGBLIGHTING and LIGHTINGDIR hold three bytes per luxel of the map's light data, are written when asked for, and old ones are removed")
    v.ob("files", B["files"], "the .lit and .lux files are written from the colour and direction buffers when asked for")
    v.ob("litonly", B["litonly"], "-litonly writes into buffers of the size of the existing light data and leaves that data alone")


def nice(x):
    return re.sub(r"^\?0\.", "v:0.", re.sub(r"@\d+$", "", x))


def judge(v, lit, rgb, lit2, B, cfg, vc, vs, vl):
    lam = lambda w: w.S.f["l"]
    idat = {z[8].split("[")[0] for y in vc.paths(hows=("end",)) for _, z in y.calls("CalculateLightmapStyles")}
    used = {tuple(z[2 + k:5 + k]) for w, call, k in ((vl, "SaveLitOnlyLightmapSurface", 5), (vs, "SaveLightmapSurface", 7)) for y in w.paths(hows=("end",)) for _, z in y.calls(call)}
    if len(used) != 1:
        B["alloc"].append("the buffers are passed in different order")
    for e in v.paths(hows=("end",)):
        g = dict(e.g)
        for x in e.e:
            if x[0] == "mutate" and x[1] == "resize" and x[2] in idat and x[3] != "P0.bsp.dfaces.size()" and not lit:
                B["order"].append("%s: data of %s faces is kept" % (cfg, x[3]))
            if x[0] in ("loop", "left") and x[2] != "i<P0.bsp.dfaces.size()>" and int(re.search(r":(\d+)", v.S.B.nodes[x[1]].where()).group(1)) in [w.S.f["l"] for w in (vc, vs, vl)]:
                B["order"].append("%s: not all faces: %s" % (cfg, x[2]))
        bit = lambda w, n: g.get("and(%d,light_options.%s)" % (n, w))
        wl, wx = g.get("light_options.write_litfile"), g.get("light_options.write_luxfile")
        # contradictory settings: no bit may be set when the value is zero
        if (wl is False and (bit("write_litfile", 1) or bit("write_litfile", 2) or lit2)) or (wx is False and (bit("write_luxfile", 1) or bit("write_luxfile", 2))):
            continue
        if (wl and not lit2 and bit("write_litfile", 1) is False and bit("write_litfile", 2) is False) or (wx and bit("write_luxfile", 1) is False and bit("write_luxfile", 2) is False):
            continue
        ix = {}
        for i, x in enumerate(e.e):
            if x[0] in ("loop", "left"):
                ln = v.S.B.nodes[x[1]].line if hasattr(v.S.B.nodes[x[1]], "line") else int(re.search(r":(\d+)", v.S.B.nodes[x[1]].where()).group(1))
                ix.setdefault(ln, i)
        c, s, o = (ix.get(lam(w)) for w in (vc, vs, vl))
        rs = [(i, x[2], x[3]) for i, x in enumerate(e.e) if x[0] == "mutate" and x[1] == "resize" and not x[2].startswith("P0")]
        # the saving loops name the three buffers
        names = None
        for w, call, k in ((vl, "SaveLitOnlyLightmapSurface", 5), (vs, "SaveLightmapSurface", 7)):
            for y in w.paths(hows=("end",)):
                for _, z in y.calls(call):
                    names = z[2 + k:5 + k]
        fb, cl, lx = names
        size = {b: [(i, t) for i, n, t in rs if n == b] for b in (fb, cl, lx)}
        first = o if lit else s
        if first is None or (not lit and (c is None or c > s)) or (lit and (c is not None or s is not None)):
            B["order"].append("%s: the faces are not counted and then saved" % cfg)
            continue
        pre = {b: [t for i, t in size[b] if i < first and (lit or i > c)] for b in size}
        for b in size:
            if not lit and any(i < c for i, t in size[b]):
                B["order"].append("%s: a buffer gets its size before the space is counted" % cfg)
        ctr = None
        for y in vc.paths(hows=("end",)):
            for _, z in y.calls("CalculateLightmapStyles"):
                ctr = z[7]
        unit = "P0.bsp.dlightdata.size()" if lit else ctr
        okfb = pre[fb] and (pre[fb][-1] == unit)
        three = lambda b: bool(pre[b]) and (feq(v.S, nice3(pre[b][-1], fb, unit), "3*%s" % unit))
        if not rgb and not okfb:
            B["litonly" if lit else "alloc"].append("%s: light data of %s bytes" % (cfg, pre[fb]))
        if rgb and pre[fb]:
            B["alloc"].append("%s: grey light data is reserved" % cfg)
        needlit = rgb or wl or lit2
        needlux = wx or lit2
        if needlit and not three(cl):
            B["litonly" if lit else "alloc"].append("%s: colours of %s bytes" % (cfg, pre[cl]))
        if pre[cl] and not three(cl):
            B["litonly" if lit else "alloc"].append("%s: colours of %s bytes" % (cfg, pre[cl]))
        if (needlux or pre[lx]) and not three(lx):
            B["litonly" if lit else "alloc"].append("%s: directions of %s bytes" % (cfg, pre[lx]))
        # publishing comes after saving
        pub = [(i, x) for i, x in enumerate(e.e) if (x[0] == "call" and x[1] in ("WriteLitFile", "WriteLuxFile", "transfer")) or (x[0] in ("=", "copy", "append") and x[1] == "P0.bsp.dlightdata") or (x[0] == "mutate" and x[2] == "P0.bsp.dlightdata")]
        if any(i < first for i, x in pub):
            B["order"].append("%s: data is published before it is saved" % cfg)
        if any(i > first and b in (cl, lx, fb) and not feq(v.S, t, "3*P0.bsp.dlightdata.size()") for b in size for i, t in size[b]):
            B["alloc"].append("%s: a buffer changes its size after the faces are saved" % cfg)
        data = [nice(x[2]) for i, x in pub if x[0] == "=" and x[1] == "P0.bsp.dlightdata"]
        W2 = e.calls("WriteLitFile")
        if lit2:
            if [(x[5], nice(x[6]), nice(x[7])) for i, x in W2] != [("2", cl, lx)]:
                B["files"].append("%s: %s" % (cfg, [x[5:] for i, x in W2]))
            if e.calls("transfer") or e.calls("WriteLuxFile") or data:
                B["lump"].append("%s: the map is changed as well" % cfg)
            continue
        if lit and (data or any(x[0] == "mutate" and x[2] == "P0.bsp.dlightdata" for i, x in pub)):
            B["litonly"].append("the light data is replaced by %s" % data)
        if not lit and data != [cl if rgb else fb]:
            B["lump"].append("%s: the light data is %s" % (cfg, data))
        er = {x[3].strip('"'): i for i, x in enumerate(e.e) if x[0] in ("mutate", "call") and x[1] == "erase" and len(x) > 3 and "bspx" in x[2]}
        tr = [(i, x[3].strip('"'), nice(x[4]), x[4]) for i, x in e.calls("transfer")]
        for name, buf, opt in (("RGBLIGHTING", cl, "write_litfile"), ("LIGHTINGDIR", lx, "write_luxfile")):
            t = [x for x in tr if x[1] == name]
            want = not rgb and bit(opt, 2)
            if name not in er or any(i < er[name] for i, *_ in t):
                B["bspx"].append("%s: an old %s is kept" % (cfg, name))
            if bool(t) != bool(want):
                B["bspx"].append("%s: %s is %s" % (cfg, name, "written" if t else "not written"))
            elif t:
                i, _, b, raw = t[0]
                if len(t) > 1 or b != buf:
                    B["bspx"].append("%s: %s is made from %s" % (cfg, name, b))
                if not any(j < i and feq(v.S, z, "3*P0.bsp.dlightdata.size()") for j, z in size[buf]):
                    B["bspx"].append("%s: %s has another size" % (cfg, name))
        lf, xf = [(i, x) for i, x in W2], e.calls("WriteLuxFile")
        if bool(lf) != bool(not rgb and bit("write_litfile", 1)) or any(nice(x[6]) != cl or x[5] != "1" for i, x in lf):
            B["files"].append("%s: the .lit file is %s" % (cfg, "written" if lf else "not written"))
        if bool(xf) != bool(not rgb and bit("write_luxfile", 1)) or any(nice(x[5]) != lx for i, x in xf):
            B["files"].append("%s: the .lux file is %s" % (cfg, "written" if xf else "not written"))
        for i, x in lf + xf:
            if any(y[2] in (cl if x[1] == "WriteLitFile" else lx,) and j < i for j, y in enumerate(e.e) if y[0] == "call" and y[1] == "transfer" for y in [(0, 0, nice(y[4]))]):
                B["files"].append("%s: a file is written from a buffer that was given away" % cfg)
    return


def nice3(t, fb, unit):
    return t.replace("%s.size()" % fb, unit) if fb + ".size()" in t else t


def files(ck, P):
    v, f = one(ck, P, "WriteLitFile", calls=("write",))
    S, bad, kinds = v.S, [], set()
    for e in v.paths(hows=("end",)):
        two = next((p for t, p in e.g if re.fullmatch(r"-?2 \+ -?1\*P3 == 0", t)), None)
        kinds.add(two)
        lm = [x[2] for x in e.e if x[0] == "=" and x[1].endswith(".lmsamples")]
        if two and lm[-1:] not in (["div(P4.size(),3)"], ["P0.dlightdata.size()"]):
            bad.append("the number of luxels is %s" % lm)
        ver = [x[2] for x in e.e if x[0] == "=" and x[1].endswith("v1.version")]
        if ver != ["P3"]:
            bad.append("the version is %s" % ver)
        w = [tuple(x[3:5]) for i, x in e.calls("write")]
        one_, dir_ = ("&P4[0]", "P4.size()"), ("&P5[0]", "P5.size()")
        if two and w != [one_, dir_]:
            bad.append("a lit2 file is made of %s" % (w,))
        if two is False and w not in ([one_], [("&P4[0]", "3*P0.dlightdata.size()")]):
            bad.append("a lit file is made of %s" % (w,))
    if True not in kinds or False not in kinds:
        raise AnalysisBroken("WriteLitFile: versions are not distinguished")
    v.ob("lit", bad, "a lit file is its header and the whole colour buffer; version 2 adds the number of luxels, the records and the directions")
    v, f = one(ck, P, "WriteLuxFile", calls=("write",))
    bad = []
    for e in v.paths(hows=("end",)):
        w = [tuple(x[3:5]) for i, x in e.calls("write")]
        if w not in ([("&P3[0]", "3*P0.dlightdata.size()")], [("&P3[0]", "P3.size()")]):
            bad.append("a lux file is made of %s" % (w,))
        if [x[2] for x in e.e if x[0] == "=" and x[1].endswith("v1.version")] != ["P2"]:
            bad.append("another version is written")
    v.ob("lux", bad, "a lux file is its header and three bytes for each luxel of the light data")


def clear(ck, P):
    v, f = one(ck, P, "CreateLightmapSurfaces", "light/light.cc", calls=("CreateLightmapSurface",))
    S, bad, n = v.S, [], 0

    def rec(e, arr, cnt, none, before):
        for i, x in enumerate(e.e[:before]):
            if x[0] == "loop" and x[2] == "i<%d>" % cnt and all(y.last("%s[i<%d>]" % (arr, cnt)) == none for y in v.steps(x[1])) and v.steps(x[1]):
                return True
            if x[0] == "mutate" and x[1] == "fill" and x[2] == arr and x[-1] == none:
                return True
        return False
    for h in S.iters:
        for e in v.steps(h) if h != "F" else v.paths(hows=("end",)):
            cs = e.calls("CreateLightmapSurface")
            if not cs:
                continue
            n += 1
            i, x = cs[0]
            face, sup, dec = (t.lstrip("&") for t in x[3:6])
            lo = next((p for t, p in e.g if t == "light_options.litonly"), None)
            if lo is not False:
                if any(y[0] == "=" and y[1].startswith(face + ".") for y in e.e) and lo:
                    bad.append("-litonly changes the face records")
                if lo is None:
                    bad.append("-litonly is not looked at")
                continue
            if e.last(face + ".lightofs") != "-1" or not rec(e, face + ".styles", 4, "255", i):
                bad.append("the old offset or styles of a face are kept")
            if e.neg(r"faces_sup\.size\(\) == 0"):
                s = next((y[1][:-9] for y in e.e if y[0] == "=" and y[1].startswith("faces_sup[") and y[1].endswith(".lightofs")), "?")
                if e.last(s + ".lightofs") != "-1" or not rec(e, s + ".styles", 16, "65535", i):
                    bad.append("the old offset or styles of a scaled record are kept")
            if e.neg(r"facesup_decoupled_global\.size\(\) == 0"):
                d = [y for y in e.e if y[0] == "=" and y[1].startswith("facesup_decoupled_global[") and y[1].endswith(".offset")]
                if [y[2] for y in d] != ["-1"]:
                    bad.append("the old offset of a decoupled record is kept")
    if not n:
        raise AnalysisBroken("CreateLightmapSurfaces: no surface is made")
    v.ob("cleared", bad, "before a face is lit its old offset and styles are removed from every record that will be written")


def run(ck):
    P = ck.load("light")
    space(ck, P)
    styles(ck, P)
    f, vc, vs, vl = pairs(ck, P)
    surface(ck, P)
    litonly(ck, P)
    single(ck, P)
    unscaled(ck, P)
    downsample(ck, P)
    scale(ck, P)
    publish(ck, P, f, vc, vs, vl)
    files(ck, P)
    clear(ck, P)
    ck.floor("layout", 30)
    ck.assumptions += [
        "elements of the face, surface and record arrays at the same index belong to the same face",
        "settings (range scale, gamma, colour scale) are not negative",
        "three times an offset below the int limit does not overflow (light data below 715 MB)",
        "which styles are kept, the values of the lighting itself, the lit2 record layout and the lumps written by LightWorld are not judged",
    ]
