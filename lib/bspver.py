"""The BSP version tables, read from the initialisers of the bspver_* globals."""
import cfg, model


def versions(P):
    out = {}
    vs = {v["n"]: v for v in P.vars.values()}
    for n, v in vs.items():
        if v["t"].replace("const ", "") != "bspversion_t" or v.get("init") is None or not v["init"].get("c"):
            continue
        c = v["init"]["c"]
        fs = v["init"].get("fs") or ["ident", "version", "short_name", "name", "lumps", "game", "extended_limits"]
        m = dict(zip(fs, c))
        d = {"l": v["l"], "f": v["f"], "ident": cfg.cval(m["ident"]), "version": None, "lumps": None, "copy": None, "game": None}
        opt = [x for x in model.walk(m["version"]) if cfg.cval(x) is not None]
        d["version"] = cfg.cval(opt[0]) if opt else None
        sp = [x for x in model.walk(m["lumps"]) if x.get("k") == "Init" and x.get("cls") == "lumpspec_t"]
        if sp:
            d["lumps"] = [(next((y["v"] for y in model.walk(x["c"][0]) if y.get("k") == "Str"), "?"), cfg.cval(x["c"][1])) for x in sp]
        else:
            r = [x for x in model.walk(m["lumps"]) if x.get("k") == "Ref" and x.get("n") in vs]
            d["copy"] = r[0]["n"] if r else None
        g = m.get("game")
        if g is not None:
            r = [x for x in model.walk(g) if x.get("k") == "Ref" and x.get("n", "").startswith("gamedef")]
            d["game"] = r[0]["n"] if r else None
        x = m.get("extended_limits")
        if x is not None:
            r = [y for y in model.walk(x) if y.get("k") == "Ref" and y.get("n") in vs]
            d["extended"] = r[0]["n"] if r else None
        out[n] = d
    for d in out.values():
        if d["copy"] and d["lumps"] is None:
            d["lumps"] = out[d["copy"]]["lumps"]
    return out


def games(P):
    """gamedef global -> GAME_* enumerator its constructor gives it"""
    out = {}
    for v in P.vars.values():
        t = v["t"].replace("const ", "")
        if v["n"].startswith("gamedef_") and "gamedef_" in t:
            out[v["n"]] = gid(P, t, 0)
    return out


def gid(P, t, d):
    """id constant assigned in the constructor chain of class t"""
    if d > 4:
        return None
    for f in P.fns.values():
        if f.get("ctor") and f.get("cls") == t:
            for x in model.fn_nodes(f):
                if x.get("k") == "Bin" and x["op"] == "=":
                    l = model.strip(x["a"])
                    if l.get("k") == "Member" and l.get("f") == "id":
                        r = model.strip(x["b"])
                        return cfg.cval(r)
    r = P.recs.get(t)
    for b in (r or {}).get("bases", ()):
        g = gid(P, b["n"], d + 1)
        if g is not None:
            return g
    return None
