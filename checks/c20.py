"""C20: what vis publishes: every cluster's row is the union of its portals' views, expanded, compressed and recorded where it lies."""
import re
import cfg, flow, model, rle, sym
from flow import operands, short
from model import AnalysisBroken, strip, walk

RULE = ("Symbolic summaries (path conditions and ordered memory effects of every loop iteration and of the function, values as canonical formulas of loop indices) of "
        "the vis publication code, per game family: portals loaded from the file are stored both ways with opposite planes; every cluster's row is the union over all its "
        "portals plus itself, expanded over every leaf through the cluster map, compressed whole, appended whole, and its offset recorded before; the speed-up that removes "
        "a leaf from an unprocessed portal's candidates happens only when no portal of the source cluster can still see it; the hearable row is the union of the rows of every visible cluster.")

DONE, NONE = 2, 0


def game_q2(P):
    for n, e in P.enums.items():
        for x in e["e"]:
            if x["n"] == "GAME_QUAKE_II":
                return x["v"]
    raise AnalysisBroken("anchor: GAME_QUAKE_II")


def assume(q2val, q2):
    def f(a):
        a = unver(a)
        if a.endswith("game.id == 0"):
            m = re.match(r"(?:(-?\d+) \+ -?1\*)?", a)
            c = int(m.group(1) or 0)
            return (abs(c) == q2val) == q2 if abs(c) == q2val or not q2 else False
        return None
    return f


def unver(x):
    """without the marks that tell readings of a place before and after a call apart"""
    return re.sub(r"@\d+", "", x) if type(x) is str else x


class V:
    """verdicts about one summary"""

    def __init__(self, ck, S, what):
        self.ck, self.S, self.what = ck, S, what

    def ob(self, key, bad, text, where=None):
        bad = [b for b in bad if b]
        w = where or "%s:%d (%s)" % (self.S.f["f"], self.S.f["l"], self.S.f["n"].split("::")[-1])
        for b in bad[1:3]:
            self.ck.ob("published", "%s:%s" % (self.what, key), False, self.at(b, w), "%s -- %s" % (text, b[1] if type(b) is tuple else b))
        b = bad[0] if bad else None
        self.ck.ob("published", "%s:%s" % (self.what, key), not bad, self.at(b, w) if b else w, text if not bad else "%s -- %s" % (text, b[1] if type(b) is tuple else b))

    def at(self, b, w):
        return b[0] if type(b) is tuple and b[0] else w

    def loops(self, pred):
        return [h for h in self.S.iters if h != "F" and any(pred(x) for g, e, how in self.S.iters[h] for x in e)]

    def where(self, h):
        return self.S.B.nodes[h].where() if h != "F" else None

    def symof(self, h):
        """the index symbol a completed loop was recorded with, over all contexts"""
        return {x[2] for its in self.S.iters.values() for g, e, how in its for x in e if x[0] in ("loop", "left") and x[1] == h}

    def always(self, h, ctx="F"):
        """every way through the context runs the loop to its end"""
        return all(any(x[0] == "loop" and x[1] == h for x in e) for g, e, how in self.S.iters.get(ctx, ()) if how != "left")


def count(s):
    m = re.match(r"i'*<(.*)>$", s or "")
    return m.group(1) if m else None


def split_index(l):
    """(base, index) of a location base[index]"""
    if not l.endswith("]"):
        return None, None
    d, i = 0, len(l) - 1
    while i >= 0:
        d += (l[i] == "]") - (l[i] == "[")
        if d == 0:
            break
        i -= 1
    return l[:i], l[i + 1:-1]


def neg(g, s):
    return (s, False) in g


def pos(g, s):
    return (s, True) in g


# ------------------------------------------------------------------ ClusterFlow
def cluster_rows(ck, P, f, q2val, q2):
    game = "q2" if q2 else "q1"
    S = sym.summary(P, f, inline=helpers(P, f), calls=("CompressRow", "set_bit_offset"), assume=assume(q2val, q2))
    v = V(ck, S, "row[%s]" % game)
    ps = f["params"]
    cl = [i for i, p in enumerate(ps) if sym.isint(p["t"])]
    bf = [i for i, p in enumerate(ps) if "leafbits_t" in p["t"]]
    bs = [i for i, p in enumerate(ps) if "mbsp_t" in p["t"]]
    if len(cl) != 1 or len(bf) != 1 or len(bs) != 1:
        raise AnalysisBroken("anchor: parameters of %s" % f["n"])
    C, BUF, BSP = "P%d" % cl[0], "P%d" % bf[0], "P%d" % bs[0]
    N = "portalleafs" if q2 else "portalleafs_real"
    words = S.plain(S.at_("div(%s,32)" % S.plain(S.add(S.at_("portalleafs"), S.num(31)))))
    pcount = "leafs[%s].portals.size()" % C
    por = "leafs[%s].portals[i<%s>]" % (C, pcount)

    # union of the portals
    def union_store(x):
        return x[0] in ("|=", "=") and (x[1].startswith(BUF + ".w[") or x[1].startswith(BUF + "["))
    bad, outer, inner = [], None, None
    for h in S.iters:
        if h == "F":
            continue
        sy = {count(x) for x in v.symof(h)}
        if sy == {pcount}:
            has = [h2 for h2 in S.iters if h2 not in ("F", h) and h in S.ctxof[S.B.nodes[h2].i] and any(union_store(x) for g, e, how in S.iters[h2] for x in e)]
            if has:
                outer, inner = h, has[0]
    if outer is None:
        bad.append("no loop over all portals of the cluster adds their rows to the buffer")
    else:
        for g, e, how in S.iters[outer]:
            if how != "next":
                bad.append((v.where(outer), "the loop over the cluster's portals can end early"))
            elif not any(x[0] == "loop" and x[1] == inner for x in e):
                bad.append((v.where(outer), "a portal is skipped under %s" % gtext(g)))
            elif not pos(g, state(S, por, DONE)):
                bad.append((v.where(outer), "the row of a portal that is not finished is taken"))
        sy = v.symof(inner)
        s = next(iter(sy)) if len(sy) == 1 else None
        c = count(s)
        for g, e, how in S.iters[inner]:
            if how != "next":
                bad.append((v.where(inner), "the loop over the row can end early"))
                continue
            st = [x for x in e if union_store(x)]
            if c == words and g == frozenset():
                if st != [("|=", "%s.w[%s]" % (BUF, s), "%s.visbits.w[%s]" % (por, s))]:
                    bad.append((v.where(inner), "expected the buffer word |= the same word of the portal's row, found %s" % (st or "nothing")))
            elif c == "portalleafs":
                bit = "%s.visbits[%s]" % (por, s)
                if pos(g, bit) and not any(x == ("=", "%s[%s]" % (BUF, s), "1") for x in st) or not (pos(g, bit) or neg(g, bit)) or len(g) > 1 or neg(g, bit) and st:
                    bad.append((v.where(inner), "the bit of the portal's row is not copied to the buffer (%s: %s)" % (gtext(g), st)))
            else:
                bad.append((v.where(inner), "the copied range %s does not cover every word of the row under %s" % (s, gtext(g) or "no condition")))
    v.ob("union", bad, "a cluster's row collects the whole row of every portal of the cluster, all of which must be finished")

    # every end of the function
    bad_self, bad_exp, bad_zip, bad_off, bad_app, bad_len = [], [], [], [], [], []
    bases = set()
    for g, e, how in S.iters.get("F", ()):
        i_un = index(e, lambda x: x[0] == "loop" and x[1] == outer)
        i_self = index(e, lambda x: x[0] == "=" and x[1] == "%s[%s]" % (BUF, C) and x[2] == "1")
        zips = [i for i, x in enumerate(e) if x[0] == "call" and x[1] == "CompressRow"]
        if i_un is None and outer is not None:
            bad.append("a path does not collect the portals")
        if i_self is None and not pos(g, "%s[%s]" % (BUF, C)):
            bad_self.append("a path does not set the cluster's own bit")
        if len(zips) != 1:
            bad_zip.append("the row is compressed %d times" % len(zips))
            continue
        z = e[zips[0]]
        row = z[2][1:] if z[2].startswith("&") else z[2]
        base, off = split_index(row)
        if base is None:
            base, off = row, "0"
        # the expansion loop
        exp = [h for h in v.loops(lambda x: x[0] in ("|=", "=", "copy") and x[1].startswith(base + "["))]
        if not exp:
            bad_exp.append("nothing is expanded into the compressed row %s" % row)
            continue
        run = [h for h in exp if index(e, lambda x: x[0] == "loop" and x[1] == h) is not None]
        if len(run) != 1:
            bad_exp.append((v.where(exp[0]), "the row is expanded %d times on a path" % len(run)))
            continue
        h = run[0]
        i_exp = index(e, lambda x: x[0] == "loop" and x[1] == h)
        if i_exp > zips[0]:
            bad_exp.append((v.where(h), "the row is compressed before it is expanded"))
        if i_un is not None and i_exp < i_un or i_self is not None and i_exp < i_self:
            bad_exp.append((v.where(h), "the row is expanded before its bits are complete"))
        sy = v.symof(h)
        s = next(iter(sy)) if len(sy) == 1 else None
        if count(s) != N:
            bad_exp.append((v.where(h), "the expansion covers %s, not every one of the %s leaves" % (s, N)))
            continue
        idx = S.at_(s)
        cond = "%s[%s]" % (BUF, s) if q2 else "%s[%s.dleafs[%s].cluster]" % (BUF, BSP, S.plain(S.add(idx, S.num(1))))
        want = "%s[%s]" % (base, S.plain(S.add(S.ofplain2(off), S.fdiv(idx, 8))))
        for g2, e2, how2 in S.iters[h]:
            st = [x for x in e2 if x[0] in ("|=", "=") and x[1].startswith(base + "[")]
            if how2 != "next":
                bad_exp.append((v.where(h), "the expansion can stop early"))
            elif len(g2) != 1 or not (pos(g2, cond) or neg(g2, cond)):
                bad_exp.append((v.where(h), "a leaf's bit depends on %s, expected only on %s" % (gtext(g2) or "nothing", cond)))
            elif pos(g2, cond) and st != [("|=", want, "bit(mod(%s,8))" % s)]:
                bad_exp.append((v.where(h), "a visible leaf sets %s, expected %s |= bit(mod(%s,8))" % (st or "nothing", want, s)))
            elif neg(g2, cond) and st:
                bad_exp.append((v.where(h), "a leaf that is not visible sets %s" % (st,)))
        bases.add((base, off))
        if z[3] != S.plain(S.at_("div(%s,8)" % S.plain(S.add(S.at_(N), S.num(7))))):
            bad_len.append("the compressed length is %s, expected the bytes of %s bits" % (z[3], N))
        # where it goes
        target, had = z[4], z[5]
        apps = [i for i, x in enumerate(e) if x[0] == "append" and x[1] == "vismap"]
        direct = target == "vismap"
        if not direct:
            if had != "0":
                bad_zip.append("the compressed row is added to a buffer that still holds %s bytes" % had)
            if len(apps) != 1 or apps[0] < zips[0]:
                bad_app.append("the compressed row is appended %d times" % len(apps))
                continue
            a = e[apps[0]]
            if a[2] != target or a[3] != "0" or not a[4].startswith(target + ".size()"):
                bad_app.append("the whole compressed row is not appended: %s from %s, %s bytes" % (a[2], a[3], a[4]))
            where0 = a[5]
        else:
            where0 = had
        offs = [x for x in e if x[0] == "call" and x[1] == "set_bit_offset"]
        if len(offs) != 1 or offs[0][2] != BSP + ".dvis" or offs[0][3] != "0" or offs[0][4] != C or offs[0][5] != where0:
            bad_off.append("expected one record of PVS offset %s for the cluster, found %s" % (where0, [x[2:] for x in offs]))
        if any(x[0] in ("mutate", "empty", "push") and x[1 if x[0] != "mutate" else 2] == "vismap" for x in e):
            bad_app.append("the map of all rows is changed otherwise")
        # leaf pointers
        if not q2:
            pl = v.loops(lambda x: x[0] == "=" and re.match(re.escape(BSP) + r"\.dleafs\[.*\]\.visofs$", x[1]))
            run = [h for h in pl if index(e, lambda x: x[0] == "loop" and x[1] == h) is not None]
            if len(run) != 1:
                bad_off.append("the leaf offsets are recorded by %d loops" % len(run))
                continue
            h = run[0]
            s = next(iter(v.symof(h)))
            if count(s) != N:
                bad_off.append((v.where(h), "leaf offsets cover %s, not every leaf" % s))
                continue
            leaf = "%s.dleafs[%s]" % (BSP, S.plain(S.add(S.at_(s), S.num(1))))
            same = S.cmpatom("==", S.at_(leaf + ".cluster"), S.at_(C))[0]
            for g2, e2, how2 in S.iters[h]:
                st = [x for x in e2 if x[0] == "=" and ".visofs" in x[1]]
                if how2 != "next" or len(g2) != 1 or not (pos(g2, same) or neg(g2, same)):
                    bad_off.append((v.where(h), "a leaf's offset depends on %s" % gtext(g2)))
                elif pos(g2, same) and st != [("=", leaf + ".visofs", where0)] or neg(g2, same) and st:
                    bad_off.append((v.where(h), "leaf offset: %s under %s" % (st or "nothing", gtext(g2))))
    v.ob("self", bad_self, "every cluster sees itself")
    v.ob("expand", bad_exp, "a leaf's bit is set in the row iff the bit of its cluster is set, for every leaf")
    v.ob("length", bad_len, "the compressed row covers the bytes of all leaves")
    v.ob("compress", bad_zip, "the row is compressed once, into an empty buffer")
    v.ob("append", bad_app, "the whole compressed row is appended to the visibility data, which is not changed otherwise")
    v.ob("offset", bad_off, "the offset recorded for the cluster and its leaves is where its row starts")
    return S, bases, C


def helpers(P, f):
    """functions of the same file that are only called from f (extracted pieces)"""
    out, calls = set(), {}
    for g in P.fns.values():
        if g["f"] != f["f"]:
            continue
        for x in model.fn_nodes(g):
            if x.get("k") == "Call" and x.get("fn") in P.fns:
                calls.setdefault(x["fn"], set()).add(g["n"])
    todo, ok = [f["n"]], {f["n"]}
    ch = True
    while ch:
        ch = False
        for k, cs in calls.items():
            g = P.fns[k]
            if g["f"] == f["f"] and g["n"] not in ok and cs <= ok and not ANCH & {short_name(g)}:
                ok.add(g["n"])
                ch = True
    return ok - {f["n"]}


ANCH = {"ClusterFlow", "CalcPortalVis", "BasePortalVis", "LoadVisState", "SaveVisState", "LoadPortals", "CalcVis", "CalcPHS", "UpdateMightsee", "PortalCompleted", "PortalFlow",
        "LeafThread", "GetNextPortal", "CalcAmbientSounds"}


def short_name(f):
    return f["n"].split("::")[-1]


def index(e, p):
    for i, x in enumerate(e):
        if p(x):
            return i
    return None


def gtext(g):
    return " and ".join(("" if p else "not ") + a for a, p in sorted(g))


def state(S, por, val):
    return S.cmpatom("==", S.at_(por + ".status"), S.num(val))[0]


# ------------------------------------------------------------------ the driver
def calc_vis(ck, P, f):
    S = sym.summary(P, f, inline=helpers(P, f), calls=("ClusterFlow", "LoadVisState", "BasePortalVis", "CalcPortalVis", "clear"))
    v = V(ck, S, "driver")
    bad, bad2 = [], []
    h = v.loops(lambda x: x[0] == "call" and x[1] == "ClusterFlow")
    if len(h) != 1:
        bad.append("rows are published by %d loops" % len(h))
    else:
        h = h[0]
        sy = v.symof(h)
        s = next(iter(sy)) if len(sy) == 1 else None
        if count(s) != "portalleafs":
            bad.append((v.where(h), "the rows published are %s, not every cluster" % s))
        if not v.always(h):
            bad.append((v.where(h), "some way through vis publishes no rows"))
        for g, e, how in S.iters[h]:
            c = [x for x in e if x[0] == "call" and x[1] == "ClusterFlow"]
            if how != "next":
                bad.append((v.where(h), "the loop over the clusters can end early"))
            elif g or len(c) != 1 or c[0][2] != s:
                bad.append((v.where(h), "a cluster is published as %s under %s" % (c, gtext(g) or "no condition")))
            else:
                buf = c[0][3].lstrip("&")
                i = index(e, lambda x: x[0] == "call" and x[1] == "ClusterFlow")
                cl = [k for k, x in enumerate(e) if x[0] in ("empty", "call") and x[-1].lstrip("&") == buf and (x[0] == "empty" or x[1] == "clear")]
                local = any(n.ast is not None and n.ast.get("k") == "Var" and "v:%s" % n.ast["id"] == buf and h in S.ctxof[n.i] for n in S.B.nodes)
                if not cl and not local:
                    bad2.append((v.where(h), "the buffer keeps the bits of the cluster before"))
    for g, e, how in S.iters.get("F", ()):
        load = [p for a, p in g if a.startswith("LoadVisState(")]
        names = [x[1] if x[0] == "call" else "loop" if x[0] == "loop" and x[1] == h else None for x in e]
        names = [n for n in names if n in ("LoadVisState", "BasePortalVis", "CalcPortalVis", "loop")]
        want = ["LoadVisState"] + (["BasePortalVis"] if load == [False] else []) + ["CalcPortalVis", "loop"]
        if names != want:
            bad.append("the phases run as %s when the state was %sloaded" % (names, "" if load == [True] else "not "))
    v.ob("clusters", bad, "base visibility unless a state was loaded, then full visibility, then every cluster's row exactly once")
    v.ob("buffer", bad2, "every cluster's row starts from an empty buffer")


def full_vis(ck, P, f):
    S = sym.summary(P, f, inline=helpers(P, f))
    v = V(ck, S, "full")
    bad, bad2 = [], []
    for g, e, how in S.iters.get("F", ()):
        fast = [p for a, p in g if a.endswith(".fast") or a.endswith(".fast.value()")]
        ls = [x for x in e if x[0] in ("loop", "left")]
        if fast == [True]:
            ok = False
            for x in ls:
                if count(x[2]) != "portals.size()" or x[0] != "loop":
                    continue
                el = "portals[%s]" % x[2]
                its = S.iters[x[1]]
                if all(how2 == "next" and not g2 and ("=", el + ".visbits", el + ".mightsee") in e2 and ("=", el + ".status", str(DONE)) in e2 for g2, e2, how2 in its):
                    ok = True
            if not ok:
                bad.append("the fast mode does not publish every portal's loose estimate")
        else:
            par = [x for x in ls if S.loop[x[1]].kind == "lambda" or "#" in x[2]]
            n = [count(x[2]) for x in par]
            todo = None
            for x in ls:  # a count of the finished portals
                if count(x[2]) == "portals.size()" and x[0] == "loop":
                    el = "portals[%s]" % x[2]
                    its = S.iters[x[1]]
                    for g2, e2, how2 in its:
                        for y in e2:
                            if y[0] == "let" and pos(g2, state(S, el, DONE)) and y[2] == S.plain(S.add(S.at_(y[1]), S.num(1))):
                                todo = y[1]
                    if todo and any(y[0] == "let" and y[1] == todo and not pos(g2, state(S, el, DONE)) for g2, e2, how2 in its for y in e2):
                        todo = None
                if todo and not any(y == ("let", todo, "0") for y in e):
                    todo = None
            full = S.mul(S.at_("numportals"), S.num(2))
            want = {S.plain(full), "portals.size()"}
            if todo:
                want |= {S.plain(S.add(full, S.at_(todo), -1)), S.plain(S.add(S.at_("portals.size()"), S.at_(todo), -1))}
            if not any(c in want for c in n):
                bad2.append("full visibility runs %s times, expected once for every portal that is not finished" % (n or "no"))
    v.ob("fast", bad, "the fast mode publishes every portal's conservative estimate as its row")
    v.ob("all", bad2, "full visibility runs for every portal that is not finished")


def leaf_thread(ck, P, f):
    S = sym.summary(P, f, inline=helpers(P, f), calls=("GetNextPortal", "PortalFlow", "PortalCompleted"))
    v = V(ck, S, "thread")
    bad = []
    for g, e, how in S.iters.get("F", ()):
        c = [x for x in e if x[0] == "call"]
        none = any(a.lstrip("&").startswith("GetNextPortal(") and not p or a.endswith("GetNextPortal() == 0") and p for a, p in g)
        if none:
            if [x[1] for x in c] != ["GetNextPortal"]:
                bad.append("work is done although no portal was claimed: %s" % c)
            continue
        if [x[1] for x in c] != ["GetNextPortal", "PortalFlow", "PortalCompleted"]:
            bad.append("a claimed portal runs through %s" % [x[1] for x in c])
        elif "GetNextPortal()" not in c[1][2] or c[1][2] not in c[2][2:]:
            bad.append("the portal computed (%s) and the portal completed (%s) differ from the one claimed" % (c[1][2:], c[2][2:]))
    v.ob("claim", bad, "the portal that was claimed is the one computed and then completed")


# ------------------------------------------------------------------ mightsee speed-up
def completed(ck, P, f, upd):
    S = sym.summary(P, f, inline=helpers(P, f) - {"UpdateMightsee"}, calls=("UpdateMightsee",))
    v = V(ck, S, "update")
    pi = [i for i, p in enumerate(f["params"]) if "visportal_t" in p["t"]]
    if len(pi) != 1:
        raise AnalysisBroken("anchor: portal parameter of %s" % f["n"])
    me = "leafs[P%d.leaf]" % pi[0]
    pc = me + ".portals.size()"
    words = "div(%s,32)" % S.plain(S.add(S.at_("portalleafs"), S.num(31)))
    bad = []
    calls = [(h, g, e, x) for h, its in S.iters.items() for g, e, how in its for x in e if x[0] == "call" and x[1] == "UpdateMightsee"]
    args = [i for i, p in enumerate(upd["params"]) if "leaf_t" in p["t"]]
    if not calls:
        v.ob("survivors", [], "no candidate is ever removed")
        return
    for h, g, e, x in calls:
        src, dst = x[2 + args[0]], x[2 + args[1]]
        w = v.where(h)
        if dst.lstrip("&") != me:
            bad.append((w, "the leaf hidden is %s, expected the completed portal's own" % dst))
        base, off = split_index(src.lstrip("&"))
        # enclosing loops: word loop, portal loop
        enc = [y for y in S.ctxof[S.B.nodes[h].i]] if h != "F" else []
        wl = [y for y in enc if {count(s) for s in v.symof(y)} == {words}]
        pl = [y for y in enc if {count(s) for s in v.symof(y)} == {pc}]
        if len(wl) != 1 or len(pl) != 1:
            bad.append((w, "removal is not driven by the words of one finished portal's row"))
            continue
        j, i = next(iter(v.symof(wl[0]))), next(iter(v.symof(pl[0])))
        m = re.match(r"(?:1\*)?countr_zero\((.*)\)$", S.plain(S.add(S.ofplain2(off), S.mul(S.at_(j), S.num(32)), -1)) if off else "")
        var = None
        if m:
            var = m.group(1)
        elif off:
            b = S.plain(S.add(S.ofplain2(off), S.mul(S.at_(j), S.num(32)), -1))
            hs = [a for a, p in g if p and a.endswith(" has " + b)]
            if len(hs) == 1:
                var = hs[0][:-len(" has " + b)]
        if base != "leafs" or var is None:
            bad.append((w, "the leaf whose portals lose a candidate is %s, expected leafs[32 * word + a bit that is set]" % src))
            continue
        m = re.match(r"and\(not\(.*\),(v:[\w.]+)\)$", var)
        if m:
            var = m.group(1)  # narrowed further still
        p1 = "%s.portals[%s]" % (me, i)
        # the word starts as candidates the finished portal did not see
        for g2, e2, how2 in S.iters[pl[0]]:
            if any(y[0] in ("loop", "left") and y[1] == wl[0] for y in e2) and not pos(g2, state(S, p1, DONE)):
                bad.append((v.where(pl[0]), "the row of a portal that is not finished is taken as final"))
        want = wordand(S, "%s.mightsee.w[%s]" % (p1, j), "not(%s.visbits.w[%s])" % (p1, j))
        if not var.startswith("v:"):
            bad.append((w, "the removed bits are not narrowed by the other portals of the leaf"))
            continue
        for g2, e2, how2 in S.iters[wl[0]]:
            reached = index(e2, lambda y: y[0] in ("loop", "left") and y[1] == h or y is x)
            if reached is None:
                continue
            before = e2[:reached]
            init = [k for k, y in enumerate(before) if y[0] == "let" and y[1] == var]
            if not init or before[init[-1]][2] != want:
                bad.append((v.where(wl[0]), "the removable bits start as %s, expected %s" % (before[init[-1]][2] if init else "unknown", want)))
                continue
            ks = [y for y in before[init[-1]:] if y[0] in ("loop", "left") and any(z[0] == "let" and z[1] == var for g3, e3, how3 in S.iters[y[1]] for z in e3) and y[1] != h]
            if len(ks) != 1:
                bad.append((v.where(wl[0]), "the bits are removed without asking every other portal of the leaf"))
                continue
            kl = ks[0][1]
            k = ks[0][2]
            if count(k) != pc:
                bad.append((v.where(kl), "only %s of the leaf's portals are asked" % k))
                continue
            p2 = "%s.portals[%s]" % (me, k)
            same = S.cmpatom("==", S.at_(k), S.at_(i))[0]
            same2 = S.cmpatom("==", S.at_("&" + p2), S.at_("&" + p1))[0]
            vis2 = wordand(S, var, "not(%s.visbits.w[%s])" % (p2, j))
            may2 = wordand(S, var, "not(%s.mightsee.w[%s])" % (p2, j))
            for g3, e3, how3 in S.iters[kl]:
                val = [z[2] for z in e3 if z[0] == "let" and z[1] == var]
                zero = any((a == c and not p) for c in (vis2, may2, var) for a, p in g3) or any((a == S.cmpatom("==", S.at_(c), S.num(0))[0] and p) for c in (vis2, may2, var) for a, p in g3)
                if how3 == "left" and zero or how3 == "next" and (pos(g3, same) or pos(g3, same2)):
                    continue
                if how3 == "left":
                    bad.append((v.where(kl), "the other portals are not all asked although bits remain"))
                elif len(val) != 1:
                    bad.append((v.where(kl), "another portal of the leaf is not asked under %s" % gtext(g3)))
                elif val[0] == may2:
                    pass
                elif val[0] == vis2 and pos(g3, state(S, p2, DONE)):
                    pass
                else:
                    bad.append((v.where(kl), "the bits still visible through another portal are taken off as %s under %s" % (val[0], gtext(g3))))
    v.ob("survivors", bad, "a leaf loses sight of this one only if no portal of this leaf sees it or may still see it")


def wordand(S, a, b):
    return "and(%s)" % ",".join(sorted((a, b)))


def update(ck, P, f):
    S = sym.summary(P, f, inline=helpers(P, f))
    v = V(ck, S, "remove")
    ls = [i for i, p in enumerate(f["params"]) if "leaf_t" in p["t"]]
    if len(ls) != 2:
        raise AnalysisBroken("anchor: parameters of %s" % f["n"])
    src, dst = "P%d" % ls[0], "P%d" % ls[1]
    bad = []
    for h, its in S.iters.items():
        for g, e, how in its:
            for x in e:
                if x[0] in ("=", "|=") and (".mightsee[" in x[1] or ".mightsee.w[" in x[1] or x[1].endswith(".mightsee") or ".visbits" in x[1]):
                    sy = v.symof(h) if h != "F" else {None}
                    s = next(iter(sy))
                    por = "%s.portals[%s]" % (src, s)
                    if x != ("=", "%s.mightsee[index(%s in leafs)]" % (por, dst), "0"):
                        bad.append((v.where(h), "%s = %s, expected only the destination's bit of a portal of the source leaf to be cleared" % (x[1], x[2])))
                    elif not pos(g, state(S, por, NONE)):
                        bad.append((v.where(h), "the candidates of a portal that has been started are changed"))
    v.ob("bit", bad, "only the candidate bit of the given leaf is cleared, only for portals not yet started")


# ------------------------------------------------------------------ loading
def load(ck, P, f, q2val, q2):
    game = "q2" if q2 else "q1"
    S = sym.summary(P, f, inline=helpers(P, f), calls=("LoadPrtFile",), assume=assume(q2val, q2))
    v = V(ck, S, "load[%s]" % game)
    BSP = ["P%d" % i for i, p in enumerate(f["params"]) if "mbsp_t" in p["t"]][0]
    bad, bad2, bad3 = [], [], []
    hs = v.loops(lambda x: x[0] == "push" and x[1].startswith("leafs["))
    if len(hs) != 1:
        raise AnalysisBroken("loading of portals: %d loops put portals into leaves" % len(hs))
    h = hs[0]
    s = next(iter(v.symof(h)))
    m = re.match(r"(.*)\.portals\.size\(\)$", count(s) or "")
    if not m:
        bad.append((v.where(h), "the loop covers %s, not every portal of the file" % s))
        v.ob("pairs", bad, "every portal of the file is stored in both directions")
        return
    F = m.group(1)
    src = "%s.portals[%s]" % (F, s)
    N = F + ".portals.size()"
    for g, e, how in S.iters[h]:
        if how != "next" or g:
            bad.append((v.where(h), "a portal is treated differently under %s" % (gtext(g) or how)))
            continue
        last = {x[1]: x[2] for x in e if x[0] == "="}
        push = [x for x in e if x[0] == "push"]
        offs = []
        for side in (0, 1):
            lf = "%s.leafnums[%d]" % (src, side)
            other = "%s.leafnums[%d]" % (src, 1 - side)
            p = [x for x in push if x[1] == "leafs[%s].portals" % lf]
            if len(p) != 1 or not p[0][3].startswith("&portals["):
                bad.append((v.where(h), "the leaf on side %d gets %s" % (side, [x[3:] for x in p] or "no portal")))
                continue
            el = p[0][3][1:]
            offs.append(split_index(el)[1])
            if last.get(el + ".leaf") != other:
                bad.append((v.where(h), "the portal in the leaf on side %d leads to %s, expected %s" % (side, last.get(el + ".leaf"), other)))
            w = last.get(el + ".winding")
            flipped = None
            for a, fl in (("copy_polylib_winding(%s.winding)" % src, False), ("copy_polylib_winding(flip(%s.winding))" % src, True)):
                if w == a:
                    flipped = fl
            if flipped is None:
                bad.append((v.where(h), "the winding on side %d is %s" % (side, w)))
            elif flipped != (side == 1):
                bad.append((v.where(h), "the winding on side %d faces the wrong way" % side))
            pl, sg = last.get(el + ".plane") or "", False
            while pl.startswith("operator-("):
                pl, sg = pl[len("operator-("):-1], not sg
            if pl == "plane(flip(%s.winding))" % src:
                pl, sg = "plane(%s.winding)" % src, not sg
            if pl != "plane(%s.winding)" % src or sg != (side == 0):
                bad.append((v.where(h), "the plane on side %d is %s" % (side, last.get(el + ".plane"))))
        if len(push) != 2:
            bad.append((v.where(h), "a portal of the file enters %d leaves" % len(push)))
        i = S.at_(s)
        ok = [{S.plain(S.mul(i, S.num(2))), S.plain(S.add(S.mul(i, S.num(2)), S.num(1)))}, {S.plain(i), S.plain(S.add(i, S.at_(N)))}]
        if len(offs) == 2 and set(offs) not in ok:
            bad.append((v.where(h), "the two directions are stored at %s" % offs))
    for g, e, how in S.iters["F"]:
        sizes = {x[2]: x[3] for x in e if x[0] == "mutate" and x[1] == "resize" and len(x) > 3}
        if sizes.get("portals") != S.plain(S.mul(S.at_(N), S.num(2))):
            bad.append("room for %s portals" % sizes.get("portals"))
        if sizes.get("leafs") != F + ".portalleafs" or sizes.get(BSP + ".dvis") != F + ".portalleafs":
            bad3.append("room for %s clusters and %s rows" % (sizes.get("leafs"), sizes.get(BSP + ".dvis")))
        st = {x[1]: x[2] for x in e if x[0] == "="}
        if st.get("portalleafs") != F + ".portalleafs" or st.get("numportals") != N or not q2 and st.get("portalleafs_real") != F + ".portalleafs_real":
            bad3.append("counts %s" % {k: st.get(k) for k in ("portalleafs", "portalleafs_real", "numportals")})
        n = "portalleafs" if q2 else "portalleafs_real"
        key = "leafbytes" if q2 else "leafbytes_real"
        if not stride_ok(S, st.get(key), F + "." + n):
            bad3.append("a row takes %s bytes, which may be too few for %s bits" % (st.get(key), n))
        if not any(x[0] == "loop" and x[1] == h for x in e):
            bad.append("a path loads no portals")
        if not q2:
            ls = [x for x in e if x[0] == "loop" and any(y[0] == "=" and re.match(re.escape(BSP) + r"\.dleafs\[.*\]\.cluster$", y[1]) for g2, e2, how2 in S.iters[x[1]] for y in e2)]
            if len(ls) != 1:
                bad2.append("the cluster of every leaf is set by %d loops" % len(ls))
                continue
            s2 = ls[0][2]
            c = count(s2)
            size = S.at_(F + ".dleafinfos.size()")
            for g2, e2, how2 in S.iters[ls[0][1]]:
                for off in (0, 1):
                    if c == S.plain(S.add(size, S.num(off), -1)):
                        k = S.plain(S.add(S.at_(s2), S.num(off)))
                        break
                else:
                    bad2.append((v.where(ls[0][1]), "only %s leaves get their cluster" % s2))
                    break
                w = ("=", "%s.dleafs[%s].cluster" % (BSP, k), "%s.dleafinfos[%s].cluster" % (F, k))
                if g2 or how2 != "next" or w not in e2:
                    bad2.append((v.where(ls[0][1]), "the cluster of leaf %s is set by %s under %s" % (k, [x for x in e2 if x[0] == "="], gtext(g2) or "no condition")))
    v.ob("pairs", bad, "every portal of the file is stored in both directions: in each leaf, leading to the other, with its winding facing that leaf and the matching plane")
    v.ob("sizes", bad3, "counts and row sizes come from the portal file and a row has room for every bit")
    if not q2:
        v.ob("map", bad2, "every leaf gets the cluster the portal file gives it")


def stride_ok(S, s, n):
    """at least ceil(n/8) bytes"""
    if s is None:
        return False
    m = re.match(r"(?:1\*)?div\((.*),(\d+)\)$", s)
    if m and int(m.group(2)) == 8:
        x = m.group(1)
        for k in (8, 16, 32, 64, 128):
            r = "%d + 1*%s" % (k - 1, n)
            if x == r or x in ("and(%d,%s)" % (-k, r), "and(%s,%d)" % (r, -k)) or k == 8 and x == r:
                return True
            if re.match(r"and\((?:not\(%d\)),%s\)$" % (k - 1, re.escape(r)), x):
                return True
    m = re.match(r"(\d+)\*div\((.*),(\d+)\)$", s)
    if m and int(m.group(3)) == 8 * int(m.group(1)) and m.group(2) == "%d + 1*%s" % (int(m.group(3)) - 1, n):
        return True
    return False


# ------------------------------------------------------------------ main, phs, offsets
def vis_main(ck, P, f, q2val, q2, bases, C):
    game = "q2" if q2 else "q1"
    calls = ("LoadPortals", "CalcVis", "CalcPHS", "ConvertBSPFormat", "WriteBSPFile")
    S = sym.summary(P, f, inline=helpers(P, f), calls=calls, assume=assume(q2val, q2))
    v = V(ck, S, "main[%s]" % game)
    bad, bad2 = [], []
    n = 0
    for g, e, how in S.iters.get("F", ()):
        e = [tuple(unver(y) for y in x) for x in e]
        if not any(x[0] == "call" and x[1] == "CalcVis" for x in e):
            continue
        n += 1
        pos_ = {}
        for i, x in enumerate(e):
            if x[0] == "call":
                pos_.setdefault(x[1], []).append(i)
        for base, off in bases:
            if off == "0":
                continue
            sz = [i for i, x in enumerate(e) if x[0] == "mutate" and x[1] == "resize" and x[2] == base]
            stride = S.plain(S.rdiv(S.ofplain2(off), C))
            want = S.plain(S.mul(S.at_("portalleafs"), S.at_(stride)))
            if len(sz) != 1 or e[sz[0]][3] != want or not pos_["LoadPortals"][0] < sz[0] < pos_["CalcVis"][0]:
                bad.append("rows lie %s bytes apart but the room made for them is %s" % (stride, [e[i][3:] for i in sz]))
        mv = [i for i, x in enumerate(e) if x[0] == "=" and x[1].endswith(".dvis.bits")]
        if len(mv) != 1 or e[mv[0]][2] != "vismap" or mv[0] < pos_["CalcVis"][0]:
            bad2.append("the published data is %s" % [e[i][2] for i in mv])
        elif q2 and (len(pos_.get("CalcPHS", ())) != 1 or pos_["CalcPHS"][0] < mv[0]):
            bad2.append("hearable rows are not derived from the published ones")
        cv = pos_.get("ConvertBSPFormat", [])
        wr = pos_.get("WriteBSPFile", [])
        if len(wr) != 1 or len(cv) != 2 or not (cv[0] < pos_["CalcVis"][0] and mv and mv[-1] < cv[1] < wr[0]):
            bad2.append("the result is not converted back and written once")
        elif q2 and pos_.get("CalcPHS") and pos_["CalcPHS"][0] > cv[1]:
            bad2.append("hearable rows are added after the conversion")
    if not n:
        raise AnalysisBroken("anchor: no path of %s computes visibility" % f["n"])
    v.ob("room", bad, "the table of uncompressed rows has one row of the stride used for every cluster")
    v.ob("publish", bad2, "the assembled data becomes the map's visibility data, is converted back and written")


def phs(ck, P, f):
    S = sym.summary(P, f, inline=helpers(P, f) | {"ClusterPVS"}, calls=("DecompressVis", "CompressRow", "set_bit_offset", "get_bit_offset"))
    v = V(ck, S, "phs")
    bad, bad2 = [], []
    BSP = "P0"
    bits = BSP + ".dvis.bits"
    hs = v.loops(lambda x: x[0] == "call" and x[1] == "set_bit_offset")
    if len(hs) != 1:
        raise AnalysisBroken("anchor: hearable rows are published by %d loops" % len(hs))
    h = hs[0]
    i = next(iter(v.symof(h)))
    nb = "div(%s,8)" % S.plain(S.add(S.at_("portalleafs"), S.num(7)))
    if count(i) != "portalleafs" or not v.always(h):
        bad.append((v.where(h), "hearable rows cover %s" % i))
    row = lambda k: "&%s[get_bit_offset(%s.dvis,0,%s)]" % (bits, BSP, k)
    for g, e, how in S.iters[h]:
        w = v.where(h)
        if how != "next" or any(a for a, p in g if "get_bit_offset" not in a):
            bad.append((w, "a cluster is treated differently under %s" % gtext(g)))
            continue
        zip_ = [k for k, x in enumerate(e) if x[0] == "call" and x[1] == "CompressRow"]
        offs = [x for x in e if x[0] == "call" and x[1] == "set_bit_offset"]
        app = [k for k, x in enumerate(e) if x[0] == "append" and x[1] == bits]
        if len(zip_) != 1 or len(offs) != 1 or len(app) != 1 and e[zip_[0]][4] != bits:
            bad.append((w, "a row is compressed %d times, appended %d times, recorded %d times" % (len(zip_), len(app), len(offs))))
            continue
        z = e[zip_[0]]
        start = z[5]
        if z[4] != bits:
            a = e[app[0]]
            start = a[5]
            if z[5] != "0" or a[2] != z[4] or a[3] != "0" or not a[4].startswith(z[4] + ".size()") or app[0] < zip_[0]:
                bad.append((w, "the compressed row is not appended whole"))
        if offs[0][2:] != (BSP + ".dvis", "1", i, start):
            bad.append((w, "the offset recorded is %s, expected the PHS of cluster %s at %s" % (offs[0][2:], i, start)))
        if z[3] != nb:
            bad.append((w, "%s bytes of the row are published" % z[3]))
        acc = re.sub(r"\[0\]$", "", z[2].lstrip("&"))
        # the loop that adds rows
        adders = v.loops(lambda x: x[0] in ("|=", "=") and x[1].startswith(acc + "["))
        if len(adders) != 1:
            bad2.append((w, "the rows of visible clusters are added by %d loops" % len(adders)))
            continue
        L = adders[0]
        l = next(iter(v.symof(L)))
        enc = [y for y in S.ctxof[S.B.nodes[L].i] if y not in (L, h)]
        if not enc:
            bad2.append((v.where(L), "the rows added do not depend on the visible clusters"))
            continue
        own = [x for x in e[:zip_[0]] if x[0] == "call" and x[1] == "DecompressVis" and x[2] == row(i)]
        cell = "%s[%s]" % (acc, l)
        src = None
        for g2, e2, how2 in S.iters[L]:
            st = [x for x in e2 if x[0] in ("|=", "=") and x[1] == cell]
            if how2 != "next" or g2 or count(l) != nb or len(st) != 1 or st[0][0] != "|=":
                bad2.append((v.where(L), "adding a row: %s over %s under %s" % (st, l, gtext(g2) or "no condition")))
            else:
                src = split_index(st[0][2])[0]
                if split_index(st[0][2])[1] != l:
                    bad2.append((v.where(L), "byte %s is added to byte %s" % (split_index(st[0][2])[1], l)))
        # rows to add: one per set bit of a copy of the cluster's own row
        D = enc[0]
        for g2, e2, how2 in S.iters[D]:
            rest = [(a, p) for a, p in g2 if "get_bit_offset" not in a]
            adds = any(x[0] == "loop" and x[1] == L for x in e2)
            has = [(a, p) for a, p in rest if " has " in a]
            dec = [x for x in e2 if x[0] == "call" and x[1] == "DecompressVis"]
            if len(has) != 1:
                bad2.append((v.where(D), "adding depends on %s" % gtext(g2)))
                continue
            test, b = has[0][0].rsplit(" has ", 1)
            tb, ti = split_index(test)
            if not has[0][1]:
                if adds:
                    bad2.append((v.where(D), "the row of a cluster that is not visible is added"))
                continue
            if not adds or len(dec) != 1:
                bad2.append((v.where(D), "the row of a visible cluster is not added"))
                continue
            got = dec[0][2]
            m = re.match(re.escape("&%s[get_bit_offset(%s.dvis,0," % (bits, BSP)) + r"(.*)\)\]$", got)
            k = m.group(1) if m else None
            ok = k is not None and (S.plain(S.add(S.mul(S.ofplain2(ti), S.num(8)), S.ofplain2(b))) == k or ti == "div(%s,8)" % k and b == "mod(%s,8)" % k)
            if not ok:
                bad2.append((v.where(D), "bit %s of byte %s adds the row at %s" % (b, ti, got)))
            extra = [(a, p) for a, p in rest if a != has[0][0] and not (k and a == S.cmpatom("<", S.ofplain2(k), S.at_("portalleafs"))[0] and p)]
            if extra:
                bad2.append((v.where(D), "adding also depends on %s" % gtext(extra)))
            if src is not None and not dec[0][4].lstrip("&").startswith(src + "[0]"):
                bad2.append((v.where(D), "the row unpacked into %s is not the one added (%s)" % (dec[0][4], src)))
            # the tested row is a copy taken before anything was added
            cp = [x for x in e[:zip_[0]] if x[0] == "copy" and x[1] == tb and x[3] == acc and x[2] == x[4] == "0" or x[0] in ("=", "let") and x[1:] == (tb, acc)]
            own2 = [x for x in own if x[4].lstrip("&").startswith((tb + "[0]",))]
            own1 = [x for x in own if x[4].lstrip("&").startswith((acc + "[0]",))]
            if tb == acc or not (cp and own1 or own1 and own2):
                bad2.append((v.where(D), "the bits walked are not a copy of the cluster's own visible row, or its own row is not the start of the result"))
        for y, rng in [(y, next(iter(v.symof(y)))) for y in enc]:
            c = count(rng)
            if any(how2 != "next" for g2, e2, how2 in S.iters[y]):
                bad2.append((v.where(y), "the walk over the visible clusters can end early"))
            if c not in (nb, "8", "portalleafs"):
                bad2.append((v.where(y), "the walk over the visible clusters covers %s" % rng))
            inner = enc[enc.index(y) - 1] if enc.index(y) > 0 else None
            if inner is not None:
                for g2, e2, how2 in S.iters[y]:
                    if not any(x[0] == "loop" and x[1] == inner for x in e2) and not any(p and re.match(r"[\w:.]+\[.*\] == 0$", a) for a, p in g2):
                        bad2.append((v.where(y), "part of the row is skipped under %s" % gtext(g2)))
    v.ob("rows", bad, "every cluster's hearable row is compressed, appended whole and recorded where it lies")
    v.ob("union", bad2, "a hearable row is the cluster's visible row plus the visible rows of every cluster it sees")


def offsets(ck, P):
    st = P.fn("mvis_t::set_bit_offset")
    gt = P.fn("mvis_t::get_bit_offset")
    a = sym.summary(P, st, inline=("header_offset",))
    b = sym.summary(P, gt, inline=("header_offset",))
    bad = []
    for S, kind in ((a, "set"), (b, "get")):
        for g, e, how in S.iters.get("F", ()):
            if kind == "set":
                w = [x for x in e if x[0] == "="]
                hdr = S.plain(S.add(S.ofplain2(w[0][2]), S.at_("P2"), -1)) if len(w) == 1 else None
                if g or len(w) != 1 or w[0][1] != "this.bit_offsets[P1][P0]":
                    bad.append("recording stores %s under %s" % (w, gtext(g)))
            else:
                r = [x for x in e if x[0] == "return"]
                hdr = S.plain(S.add(S.at_("this.bit_offsets[P1][P0]"), S.ofplain2(r[0][1]), -1)) if len(r) == 1 else None
                if g or len(r) != 1:
                    bad.append("reading returns %s" % r)
            if hdr not in ("4 + 8*this.bit_offsets.size()",):
                bad.append("the header in front of the rows is taken to be %s bytes, expected a count and two offsets per cluster" % hdr)
    V(ck, a, "offsets").ob("inverse", bad, "recorded offsets count from the start of the lump, past the count and two offsets per cluster, and are read back the same way")


# ------------------------------------------------------------------ the rows' run-length code
def rowcode(ck, P):
    """compressing a row loses nothing: what is emitted and what expanding it stores"""
    f, g = P.fn("CompressRow"), P.fn("DecompressVis")
    S = sym.summary(P, f, inline=helpers(P, f))
    bad, esc, h = rle.encoder(S)
    row = [i for i, p in enumerate(f["params"]) if sym.isint(p["t"])]
    if len(row) != 1 or len(g["params"]) != 4:
        raise AnalysisBroken("anchor: parameters of CompressRow / DecompressVis")
    V(ck, S, "code").ob("CompressRow", bad + rle.complete(S, h, "P%d" % row[0]), "every byte of the row is written once, zeros as a zero and the number of zeros that follow each other")
    S = sym.summary(P, g, inline=helpers(P, g))
    bad, esc2, h, own = rle.decoder(S, "P0")
    if esc != esc2 or esc != {0}:
        bad.append((None, "counts follow the values %s when compressing, %s when expanding" % (sorted(esc), sorted(esc2))))
    V(ck, S, "code").ob("DecompressVis", bad + rle.complete(S, h, "P3", (), own), "every byte is stored once in the next place, a zero as many times as its count says, until the row is full")


def run(ck):
    P = ck.load("vis", "common")
    q2val = game_q2(P)
    cf = P.fn("ClusterFlow", "vis/vis.cc")
    res = {}
    for q2 in (False, True):
        res[q2] = cluster_rows(ck, P, cf, q2val, q2)
        load(ck, P, P.fn("LoadPortals", "vis/vis.cc"), q2val, q2)
        vis_main(ck, P, P.fn("vis_main", "vis/vis.cc", nparams=2), q2val, q2, res[q2][1], res[q2][2])
    calc_vis(ck, P, P.fn("CalcVis", "vis/vis.cc"))
    full_vis(ck, P, P.fn("CalcPortalVis", "vis/vis.cc"))
    leaf_thread(ck, P, P.fn("LeafThread", "vis/vis.cc"))
    up = P.fn("UpdateMightsee", "vis/vis.cc")
    completed(ck, P, P.fn("PortalCompleted", "vis/vis.cc"), up)
    update(ck, P, up)
    phs(ck, P, P.fn("CalcPHS", "vis/soundpvs.cc"))
    offsets(ck, P)
    rowcode(ck, P)
    ck.floor("published", 25)
    ck.assumptions.append("element accesses with different index formulas are taken to be different places; that the row code stays inside its buffers is judged by C06")
