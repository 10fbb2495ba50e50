"""C10: settings precedence."""
import cfg, effects, flow, model, sym
from flow import key, short, operands
from model import strip, walk, fn_nodes
import c04

RULE = ("The rule deciding whether a new source may replace the old one is explored over the three possible orders of their ranks: it grants, and records the new "
        "source, exactly when the new rank is not lower. Typestate exploration of every method of every setting class: the stored value and source change only "
        "after that rule granted the change for the method's own source argument (or in construction, reset and whole-setting copies, which must restore resp. "
        "copy every such member). Whoever receives a source hands on that same source. Settings of the map are applied with the map's rank, the command line with "
        "its own; values derived from the game never use a higher rank than the game's, and values that imitate the command line only replace options the user left alone. "
        "An unknown command-line option or an unusable value ends in an error on every path.")

SRC = "settings::source"
BASE = "settings::setting_base"
RANK = {"DEFAULT": 0, "GAME_TARGET": 1, "MAP": 2, "COMMANDLINE": 3}


def is_src(t):
    return t.replace("const ", "").replace(" &", "").strip() == SRC


def derived(P, base):
    out = {base}
    ch = True
    while ch:
        ch = False
        for n, r in P.recs.items():
            if n not in out and any(b["n"] in out for b in r.get("bases", ())):
                out.add(n)
                ch = True
    return out


def order_rule(ck, P):
    fs = [f for f in P.fns.values() if f["n"] == BASE + "::change_source" and f.get("body")]
    if len(fs) != 1:
        raise model.AnalysisBroken("change_source")
    f = fs[0]
    B = cfg.Builder(P, inline=lambda g, c, d: not g["n"].startswith("logging::"), max_depth=4).build(f)
    D = flow.defs(B)
    new = B.frame0.map[f["params"][0]["id"]]

    def who(e, d=0):
        e = strip(e)
        if e is None or d > 6:
            return None
        if e.get("k") == "Member" and e["f"] == "_source":
            return "old"
        if e.get("k") == "Call" and short(e) in ("get_source", "to_underlying") and operands(e):
            return "old" if short(e) == "get_source" else who(operands(e)[0], d + 1)
        if e.get("k") == "Ref" and e.get("id") == new:
            return "new"
        if e.get("k") == "Ref" and D.get(e.get("id")) is not None:
            return who(D[e["id"]], d + 1)
        return None

    def sign(op, rel):
        return {"<": rel < 0, "<=": rel <= 0, ">": rel > 0, ">=": rel >= 0, "==": rel == 0, "!=": rel != 0}[op]

    def truth(e, orig, cur, named=False):
        e = strip(e)
        v = cfg.cval(e)
        if v is not None:
            return bool(v)
        if e.get("k") == "Bin" and e["op"] in ("<", "<=", ">", ">=", "==", "!="):
            a, b = who(e["a"]), who(e["b"])
            rel = orig if named else cur
            if (a, b) == ("new", "old"):
                return sign(e["op"], rel)
            if (a, b) == ("old", "new"):
                return sign(e["op"], -rel)
        if e.get("k") == "Un" and e["op"] == "!":
            t = truth(e["e"], orig, cur, named)
            return None if t is None else not t
        if e.get("k") == "Ref" and D.get(e.get("id")) is not None:
            return truth(D[e["id"]], orig, cur, True)
        return None

    def step(n, s, lab):
        orig, cur, wr, ret = s
        e = n.ast
        if e is None:
            return s
        if n.kind == "br" and lab in (True, False):
            t = truth(e, orig, cur)
            return None if t is not None and t != lab else s
        if n.kind != "ev" or lab == "exc":
            return s
        t = effects.write_target(e)
        if t is not None and who(t) == "old":
            return (orig, 0, "new" if e.get("k") == "Bin" and who(e["b"]) == "new" else "other", ret)
        if e.get("k") == "Return" and e.get("e") is not None:
            return (orig, cur, wr, truth(e["e"], orig, cur))
        return s
    F = flow.Flow(B, [(r, r, None, None) for r in (-1, 0, 1)], step)
    names = {-1: "lower", 0: "equal", 1: "higher"}
    for r in (-1, 0, 1):
        ss = [s for s in F.states(B.exit) if s[0] == r]
        ok = bool(ss) and all(s[3] is (r >= 0) and s[2] == ("new" if r >= 0 else None) for s in ss)
        ck.ob("rank-rule", names[r], ok, model.loc(f), "a source of %s rank must be %s (found: %s)" % (
            names[r], "granted and recorded" if r >= 0 else "refused without a change",
            ", ".join(sorted("%s, source %s" % ("granted" if s[3] else "refused" if s[3] is False else "unclear", s[2] or "kept") for s in ss))))
    # the ranks themselves
    rk = {}
    for n, e in P.enums.items():
        if n == SRC:
            rk = {c["n"].split("::")[-1]: c["v"] for c in e["e"]}
    if rk:
        o = [rk.get(x) for x in ("DEFAULT", "GAME_TARGET", "MAP", "COMMANDLINE")]
        ck.ob("rank-order", SRC, None not in o and o == sorted(o) and len(set(o)) == 4, "include/common/settings.hh", "ranks: defaults < game < map < command line")


VALUE_MEMBERS = ("_source",)


def gates(ck, P):
    classes = derived(P, BASE)
    meths = [f for f in P.fns.values() if f.get("cls") in classes and f.get("body")]
    # members that hold the setting: written outside construction
    def wmembers(f):
        out = {}
        for x in fn_nodes(f):
            if x.get("k") in ("Bin", "Un", "Call"):
                t = effects.write_target(x)
                if t is None:
                    continue
                ms = effects.members(t)
                for m in ms:
                    if m.get("cls") in classes and strip(m.get("base") or {"k": "This"}).get("k") == "This":
                        out.setdefault(m["f"], x)
        return out
    isctor = lambda f: f.get("ctor") or f["n"].split("::")[-1].split("<")[0] == f["cls"].split("::")[-1].split("<")[0] or "~" in f["n"]
    last = lambda f: f["n"].split("::")[-1]
    held = {}  # class -> members
    for f in meths:
        if isctor(f) or last(f) in ("reset", "copy_from") or f.get("const"):
            continue
        for m in wmembers(f):
            if m != "_source":
                held.setdefault(f["cls"], set()).add(m)
    for c, ms in sorted(held.items()):
        chain, todo = set(), [c]
        while todo:
            x = todo.pop()
            chain.add(x)
            todo += [b["n"] for b in P.recs.get(x, {}).get("bases", ())]
        for what in ("reset", "copy_from"):
            g = [f for f in meths if f["cls"] == c and last(f) == what]
            if not g and what in ("reset", "copy_from"):
                continue
            w = wmembers(g[0])
            for m in sorted(ms) + ["_source"]:
                ck.ob("whole-" + what, "%s.%s" % (c, m), m in w, model.loc(g[0]), "%s must %s every member that holds the setting" % (what, "restore" if what == "reset" else "copy"))
                if m == "_source" and m in w and what == "reset":
                    x = w[m]
                    v = [y for y in walk(x.get("b") or {"k": "?"}) if y.get("k") == "Ref" and y.get("dk") == "enum"]
                    ck.ob("whole-reset", "%s._source:default" % c, bool(v) and v[0]["n"].split("::")[-1] == "DEFAULT", model.loc(g[0], x), "reset returns the source to the default rank")
        for f in meths:
            if f["cls"] == c and last(f) == "reset" and "_value" in ms:
                x = wmembers(f).get("_value")
                if x is not None:
                    mm = [y for y in walk(x.get("b") or x) if y.get("k") == "Member" and y["f"] == "_default"]
                    ck.ob("whole-reset", "%s._value:default" % c, bool(mm), model.loc(f, x), "reset returns the value to its default")
    paths(ck, P, meths, held)
    # gating
    needs = {}
    callers = {}
    for f in P.fns.values():
        for x in fn_nodes(f):
            if x.get("k") == "Call":
                for g in P.callees(x):
                    callers.setdefault(g["key"], set()).add(f["key"])
    pending = [f for f in meths if not isctor(f) and last(f) not in ("reset", "copy_from", "change_source")]
    bad = {}
    for rnd in range(4):
        changed = False
        for f in pending:
            if f["key"] in bad:
                continue
            B = cfg.Builder(P, inline=lambda g, c, d: bool(g.get("lambda")), max_depth=3).build(f)
            D = flow.defs(B)
            srcs = {B.frame0.map[p["id"]] for p in f["params"] if is_src(p["t"])}

            def step(n, s, lab):
                e = n.ast
                if e is not None and n.kind == "br" and lab in (True, False):
                    x, p = c04.core(e, D)
                    if x is not None and x.get("k") == "Call" and short(x) == "change_source":
                        a = strip(operands(x)[-1])
                        own = a.get("k") == "Ref" and a.get("id") in srcs
                        if lab == p and own:
                            return "granted"
                return s
            F = flow.Flow(B, "no", step)
            n_ob = 0
            for n in B.nodes:
                if n.i not in F.at or n.kind != "ev":
                    continue
                e = n.ast
                w = None
                t = effects.write_target(e) if e.get("k") in ("Bin", "Un", "Call") else None
                if t is not None:
                    for m in effects.members(t):
                        if m.get("cls") in classes and m["f"] in held.get(m["cls"], set()) | {"_source"} and strip(m.get("base") or {"k": "This"}).get("k") in ("This",):
                            w = "writes " + m["f"]
                if e.get("k") == "Call":
                    for g in P.callees(e):
                        if g["key"] in bad:
                            w = "calls " + g["n"].split("::")[-1]
                if w:
                    n_ob += 1
                    if "no" in F.at[n.i]:
                        bad[f["key"]] = (n, w, F.trace(n, "no"))
                        changed = True
                        break
            needs[f["key"]] = n_ob
        if not changed:
            break
    for f in pending:
        if f["key"] in bad:
            n, w, tr = bad[f["key"]]
            cs = callers.get(f["key"], set())
            helper = not f.get("virt") and cs and all(P.fns[c].get("cls") in classes for c in cs)
            if helper or f["n"].endswith("::addPath"):
                ck.ob("gated", f["n"], True, n.where(), "helper; its callers hold the grant")
                continue
            ck.ob("gated", f["n"], False, n.where(), "%s without the rank rule having granted the change for its own source (path %s)" % (w, tr))
        elif needs.get(f["key"]):
            ck.ob("gated", f["n"], True, model.loc(f), "%d writes, all after the rank rule granted the change" % needs[f["key"]])
    ck.floor("gated", 8)


def paths(ck, P, meths, held):
    """value and source together, on every path: of one setting, of a container, of a setting that stands for several"""
    done = set()
    for f in meths:
        what = f["n"].split("::")[-1]
        if what not in ("copy_from", "reset") or f["n"] in done:
            continue
        done.add(f["n"])
        ms = held.get(f["cls"], set())
        if not ms:
            continue
        S = sym.summary(P, f, calls=("copy_from", "reset"))
        for g, eff, how in sorted(S.iters["F"], key=repr):
            if how != "end" or any(x[0] in ("loop", "left") or x[0] == "call" for x in eff):
                continue
            ret = [x[1] for x in eff if x[0] == "return"]
            w = {}
            for x in eff:
                if x[0] in ("=", "empty") and x[1].startswith("this."):
                    w[x[1][5:]] = x[2] if x[0] == "=" else "{}"
            got = set(w) & (ms | {"_source"})
            conds = " and ".join("%s%s" % ("" if v else "not ", a) for a, v in sorted(g))[:90]
            if what == "copy_from" and ret == ["0"]:
                ck.ob("together", "%s:refused" % f["n"], not got, model.loc(f), "a setting of another kind is not copied at all (writes %s)" % sorted(got))
            else:
                bad = sorted((ms | {"_source"}) - got)
                ck.ob("together", f["n"], not bad, model.loc(f), "value and source are %s together on every path (%s left out when %s)" % (
                    "copied" if what == "copy_from" else "reset", bad, conds or "always"))
                if what == "copy_from":
                    bad = sorted("%s = %s" % (m, v) for m, v in w.items() if m in ms | {"_source"} and m != v.split(".")[-1] and "(" not in v and "." in v.replace("v:0.", ""))
                    ck.ob("together", f["n"] + ":same", not bad, model.loc(f), "each member is taken from the same member (%s)" % bad)
    # containers
    for what in ("reset", "copy_from"):
        for f in P.fns.values():
            if f["n"] != "settings::setting_container::" + what or not f.get("body"):
                continue
            S = sym.summary(P, f, calls=(what, "find_setting", "find"))
            for h, its in S.iters.items():
                if h == "F" or not any(x[0] == "call" and x[1] == what for g, e, w in its for x in e):
                    continue
                if not any(x[0] in ("loop", "left") and x[1] == h and "_settings" in x[2] for g, e, w in S.iters["F"] for x in e):
                    continue
                for g, eff, how in sorted(its, key=repr):
                    called = any(x[0] == "call" and x[1] == what for x in eff)
                    other = [(a, v) for a, v in g if "find" not in a]
                    missing = bool(g) and not other and what == "copy_from" and all(v == ("== 0" in a or "_settingsmap.size()" in a) for a, v in g if "find" in a)
                    ck.ob("every-setting", f["n"], how == "next" and (called or missing), S.B.nodes[h].where(), "%s reaches every setting (%s when %s)" % (
                        what, "it stops" if how != "next" else "one is skipped", " and ".join("%s%s" % ("" if v else "not ", a) for a, v in sorted(g))[:150] or "always"))
    ck.floor("every-setting", 3)
    ck.floor("together", 6)
    # a setting that stands for several: one refusal refuses
    for f in meths:
        if f["n"] != "settings::setting_redirect::parse":
            continue
        S = sym.summary(P, f, calls=("parse",))
        for h, its in S.iters.items():
            for g, eff, how in sorted(its, key=repr):
                if h == "F" or not any(a.startswith("parse(") and not v for a, v in g):
                    continue
                if how == "left":
                    ok = all(("return", "0") in e for gg, e, w in S.iters["F"] if any(x[0] == "left" and x[1] == h for x in e))
                else:
                    lets = {x[1] for x in eff if x[0] == "let" and x[2] in ("0", "false")}
                    ok = bool(lets) and all(any(x[0] == "return" and x[1] != "1" for x in e) for gg, e, w in S.iters["F"])
                ck.ob("refusal-counts", f["n"], ok, S.B.nodes[h].where(), "a value one of the settings cannot use is reported as unusable")
            for g, eff, how in sorted(its, key=repr):
                if h != "F" and any(x[0] == "call" and x[1] == "parse" for x in eff):
                    ck.ob("refusal-counts", f["n"] + ":looked-at", any(a.startswith("parse(") for a, v in g) or any(x[0] == "let" and "parse(" in x[2] for x in eff), S.B.nodes[h].where(), "what the settings say about the value is looked at")
    # the validator's verdict is the result
    for f in meths:
        if not (f.get("cls") or "").startswith("settings::setting_validator<") or f["n"].split("::")[-1] != "parse":
            continue
        S = sym.summary(P, f, calls=("parse", "_validator", "operator()"))
        for g, eff, how in sorted(S.iters["F"], key=repr):
            if how != "end":
                continue
            ret = [x[1] for x in eff if x[0] == "return"]
            asked = any("_validator" in a for a, v in g) or any("_validator" in r for r in ret)
            failed = any("parse(" in a and "_validator" not in a and not v for a, v in g)
            refused = any("_validator" in a and not v for a, v in g)
            ck.ob("refusal-counts", f["n"], asked and not (refused and ret == ["1"]) if not failed else ret != ["1"], model.loc(f), "a value is accepted only if it can be parsed and the option's own test accepts it")
    # names
    for f in P.fns.values():
        if f["n"] != "settings::setting_container::find_setting" or not f.get("body"):
            continue
        loose = [x for x in fn_nodes(f) if x.get("k") == "Call" and short(x) in ("lower_bound", "upper_bound", "equal_range", "starts_with", "ends_with")
                 or x.get("k") == "Call" and short(x) in ("prev", "next")]
        exact = any(x.get("k") == "Call" and (x.get("op") == "==" or short(x) in ("find", "contains", "count", "at")) and any(model.path(o) and "_settingsmap" in model.path(o) or "first" in (model.path(o) or "") for o in operands(x)) for x in fn_nodes(f))
        ck.ob("exact-name", f["n"], exact and (not loose or any(x.get("k") == "Call" and x.get("op") == "==" and any(".first" in (model.path(o) or "") or "->first" in (model.path(o) or "") for o in operands(x)) for x in fn_nodes(f))),
              model.loc(f, loose[0] if loose else None), "only an option's full name finds it")


def passing(ck, P):
    """a function that is given a source passes that source on"""
    lam_parent = {}
    for f in P.fns.values():
        own = [p["id"] for p in f["params"] if is_src(p["t"])]
        if not own:
            continue
        D = {}
        for x in fn_nodes(f):
            if x.get("k") == "Var" and x.get("init") is not None:
                D[x["id"]] = x["init"]
        for x in fn_nodes(f):
            if x.get("k") != "Call":
                continue
            for a in x.get("args", ()):
                if not is_src(a.get("t", "")) or x.get("op") or short(x) in ("to_underlying",):
                    continue
                e, i = strip(a), 0
                while e.get("k") == "Ref" and e.get("id") in D and i < 4:
                    e, i = strip(D[e["id"]]), i + 1
                ok = e.get("k") == "Ref" and e.get("id") in own
                ck.ob("passes-source", "%s->%s" % (f["n"], short(x)), ok, model.loc(f, x), "the source that was given must be handed on (found %s)" % model.path(a))
    ck.floor("passes-source", 15)


def rank_of(e):
    e = strip(e)
    if e.get("k") == "Ref" and e.get("dk") == "enum":
        return RANK.get(e["n"].split("::")[-1])
    v = cfg.cval(e)
    return v if isinstance(v, int) else None


def setting_of(e):
    """name of the setting member a call works on"""
    ms = effects.members(e)
    return ms[0]["f"] if ms else None


def constants(ck, P):
    for f in sorted(P.fns.values(), key=lambda f: f["key"]):
        if not f.get("body") or f["f"].startswith(("tests", "testmaps")):
            continue
        calls = [x for x in fn_nodes(f) if x.get("k") == "Call" and any(is_src(a.get("t", "")) and rank_of(a) is not None for a in x.get("args", ())) and not x.get("op")]
        if not calls:
            continue
        simple = [x for x in calls if short(x) in ("set_setting", "set_settings", "parse")]
        for x in simple:
            r = [rank_of(a) for a in x["args"] if is_src(a.get("t", ""))][0]
            want = 3 if short(x) == "parse" else 2
            ck.ob("named-source", "%s->%s" % (f["n"], short(x)), r == want, model.loc(f, x), "%s must carry its own rank" % ("the command line" if want == 3 else "a key of the map"))
        rest = [x for x in calls if short(x) == "set_value" and [rank_of(a) for a in x["args"] if is_src(a.get("t", ""))][0] in (1, 3)]
        if not rest or f["f"] == "light/entities.cc":
            continue
        if f["f"] not in ("light/light.cc", "qbsp/qbsp.cc", "vis/vis.cc", "qbsp/map.cc", "bsputil/bsputil.cc", "common/settings.cc"):
            pass
        try:
            B = cfg.Builder(P, inline=lambda g, c, d: bool(g.get("lambda")), max_depth=2, max_nodes=30000).build(f)
        except cfg.TooBig:
            continue
        D = flow.defs(B)
        names = sorted({setting_of(x["obj"]) for x in rest if x.get("obj") is not None and setting_of(x["obj"])})

        # state: (settings known untouched/at a sentinel, game condition?, debug condition?)
        def step(n, s, lab):
            free, game, dbg = s
            e = n.ast
            if e is not None and n.kind == "switch":
                ms = {y["f"] for y in walk(e) if y.get("k") == "Member"}
                return s
            if e is None or n.kind != "br" or lab not in (True, False):
                return s
            x, p = c04.core(e, D)
            if x is None:
                return s
            if x.get("k") == "Call" and short(x) == "is_changed":
                nm = setting_of(operands(x)[0])
                if nm in names:
                    return (free | {nm}, game, dbg) if lab != p else (free - {nm}, game, dbg)
            if x.get("k") == "Bin" and x["op"] in ("==", "!=", "<", ">", "<=", ">="):
                for side in (x["a"], x["b"]):
                    y = strip(side)
                    if y.get("k") == "Call" and short(y) == "value" and operands(y):
                        nm = setting_of(operands(y)[0])
                        if nm in names and (lab == p) == (x["op"] == "=="):
                            free = free | {nm}
                    if y.get("k") == "Call" and short(y) == "get_source" and operands(y):
                        nm = setting_of(operands(y)[0])
                        if nm in names:
                            free = free | {nm}
                mem = {y["f"] for y in walk(x) if y.get("k") == "Member"} | {y.get("n") for y in walk(x) if y.get("k") == "Ref"}
                if ("id" in mem or any(str(z).split("::")[-1].startswith("GAME_") for z in mem)) and (lab == p) == (x["op"] == "=="):
                    game = True
                if "debugmode" in mem and (lab == p) == (x["op"] == "=="):
                    dbg = True
            if x.get("k") == "Call" and short(x) == "value" and operands(x) and setting_of(operands(x)[0]) == "q2rtx" and lab == p:
                game = True
            return (free, game, dbg)
        F = flow.Flow(B, (frozenset(), False, False), step)
        for n in B.nodes:
            e = n.ast
            if n.i not in F.at or n.kind != "ev" or e.get("k") != "Call" or short(e) != "set_value":
                continue
            rr = [rank_of(a) for a in e.get("args", ()) if is_src(a.get("t", ""))]
            if not rr or rr[0] is None or e.get("obj") is None:
                continue
            nm = setting_of(e["obj"])
            if nm is None:
                continue
            for s in sorted(F.at[n.i], key=repr)[:50]:
                free, game, dbg = s
                if rr[0] == 3:
                    ck.ob("imitated-command-line", "%s:%s" % (f["n"], nm), nm in free or dbg, n.where(), "a computed value may take the command line's rank only if the user left the option alone")
                if game and all(z[1] for z in F.at[n.i]):
                    ck.ob("game-rank", "%s:%s" % (f["n"], nm), rr[0] <= 1, n.where(), "a value chosen for the game must not outrank the map or the command line")
                    break
    ck.floor("named-source", 3)
    ck.floor("game-rank", 6)


def errors(ck, P):
    fs = [f for f in P.fns.values() if f["n"] == "settings::setting_container::parse" and f.get("body")]
    if not fs:
        raise model.AnalysisBroken("setting_container::parse")
    f = fs[0]
    B = cfg.Builder(P, inline=lambda g, c, d: g.get("cls") == "settings::setting_container" and short({"n": g["n"]}) not in ("find_setting", "print_help", "print_rst_documentation") or bool(g.get("lambda")), max_depth=3).build(f)
    D = flow.defs(B)

    # state: (setting: unknown/null/found, parse: none/ok/failed)
    def step(n, s, lab):
        st, pr = s
        e = n.ast
        if e is None:
            return s
        if n.kind == "br" and lab in (True, False):
            x, p = c04.core(e, D)
            v = lab == p
            if x is not None and x.get("k") == "Call" and short(x) == "find_setting":
                return ("found" if v else "null", pr) if st in ("asked",) else None if st == "null" and v or st == "found" and not v else s
            if x is not None and x.get("k") == "Call" and short(x) == "parse" and pr == "asked":
                return (st, "ok" if v else "failed")
            return s
        if n.kind == "ev" and lab != "exc" and e.get("k") == "Call":
            if short(e) == "find_setting":
                if st == "null":
                    return ("null", pr)
                return ("asked", pr if pr in ("failed", "asked") else "none")
            if short(e) == "parse" and e.get("obj") is not None:
                return (st, "asked" if pr not in ("failed", "asked") else pr)
        return s
    F = flow.Flow(B, ("none", "none"), step)
    bad = [s for s in F.states(B.exit) if s[0] in ("null", "asked")]
    ck.ob("unknown-option", f["n"], not bad, model.loc(f), "an unknown option must end in an error" + ("; path " + F.trace(B.exit, bad[0]) if bad else ""))
    bad = [s for s in F.states(B.exit) if s[1] in ("failed", "asked")]
    ck.ob("invalid-value", f["n"], not bad, model.loc(f), "a value the option cannot use must end in an error" + ("; path " + F.trace(B.exit, bad[0]) if bad else ""))
    ok = [n for n in B.nodes if n.i in F.at and n.kind == "ev" and n.ast.get("k") == "Call" and short(n.ast) == "parse" and n.ast.get("obj") is not None]
    for n in ok:
        bad = [s for s in F.at[n.i] if s[0] != "found"]
        ck.ob("known-option", f["n"], not bad, n.where(), "only a setting that was found is parsed")
    ck.floor("known-option", 1)
    # set_setting: reports what happened
    fs = [f for f in P.fns.values() if f["n"] == "settings::setting_container::set_setting" and f.get("body")]
    for f in fs:
        B = cfg.Builder(P, inline=lambda g, c, d: False, max_depth=1).build(f)
        D = flow.defs(B)

        def step2(n, s, lab):
            st, pr, ret, cl = s
            e = n.ast
            if e is None:
                return s
            if n.kind == "br" and lab in (True, False):
                x, p = c04.core(e, D)
                v = lab == p
                if x is not None and x.get("k") == "Call" and short(x) == "find_setting":
                    return ("found" if v else "null", pr, ret, cl)
                if x is not None and x.get("k") == "Call" and short(x) == "parse":
                    return (st, v, ret, cl)
                if x is not None and x.get("k") == "Bin" and x["op"] in ("==", "!=") and any(rank_of(y) == 3 and is_src(y.get("t", "")) for y in (x["a"], x["b"])):
                    return (st, pr, ret, v == (x["op"] == "=="))
                return s
            if n.kind == "ev" and lab != "exc":
                v = e.get("e") if e.get("k") == "Return" else e.get("init") if e.get("k") == "Var" else e.get("b") if e.get("k") == "Bin" and e["op"] == "=" else None
                if v is not None:
                    r = [y["n"].split("::")[-1] for y in walk(v) if y.get("k") == "Ref" and y.get("dk") == "enum"]
                    if len(r) == 1 and r[0] in ("NONE", "MISSING", "INVALID"):
                        return (st, pr, r[0], cl)
            return s
        F = flow.Flow(B, ("none", None, None, None), step2)
        bad = [s for s in F.states(B.exit) if not (s[0] == "null" and s[2] == "MISSING" or s[0] == "found" and s[2] == {True: "NONE", False: "INVALID"}.get(s[1]))]
        ck.ob("reports", f["n"], not bad and bool(F.states(B.exit)), model.loc(f), "unknown keys are reported missing, unusable values invalid (%s)" % (bad[:1],))
        bad = [s for s in F.states(B.exit) if s[0] == "null" and s[3] is not False]
        ck.ob("unknown-option", f["n"], not bad, model.loc(f), "an unknown option of the command line must end in an error")
    # whole container
    for what in ("reset", "copy_from"):
        for f in P.fns.values():
            if f["n"] == "settings::setting_container::" + what and f.get("body"):
                calls = [x for x in fn_nodes(f) if x.get("k") == "Call" and short(x) == what]
                ck.ob("container", f["n"], bool(calls), model.loc(f), "%s reaches every registered setting" % what)


SETTERS = ("set_value", "add_value", "insert", "emplace")


def effects_of_parse(ck, P):
    """a parse that reports failure set nothing; one that reports success set the value"""
    classes = derived(P, BASE)
    for f in sorted(P.fns.values(), key=lambda f: f["key"]):
        if f.get("cls") not in classes or f["n"].split("::")[-1] != "parse" or not f.get("body"):
            continue
        if f["cls"].split("<")[0] in ("settings::setting_redirect", "settings::setting_validator", "settings::setting_func"):
            continue
        B = cfg.Builder(P, inline=lambda g, c, d: g.get("cls") in classes and g["n"].split("::")[-1] not in ("set_value", "add_value", "change_source", "primary_name", "format", "parse")
                        or g.get("cls") in classes and g["n"].split("::")[-1] == "parse" and bool(c.get("nv")) or bool(g.get("lambda")), max_depth=3).build(f)
        D = flow.defs(B)

        def step(n, s, lab):
            st, ret = s
            e = n.ast
            if e is None or n.kind != "ev" or lab == "exc":
                return s
            if e.get("k") == "Call" and (short(e) in ("set_value", "add_value", "change_source")):
                return (True, ret)
            if e.get("k") == "Return" and e.get("e") is not None:
                v = cfg.cval(e["e"])
                x = strip(e["e"])
                if v is None and x.get("k") == "Call" and short(x) in ("parse", "parseInternal"):
                    return (st, "delegated")
                return (st, v)
            return s
        F = flow.Flow(B, (False, None), step)
        for s in sorted(F.states(B.exit), key=repr):
            if s[1] in (0, False):
                ck.ob("failed-parse", f["n"], not s[0], model.loc(f), "a value that is refused must leave the setting as it was (path %s)" % F.trace(B.exit, s))
            elif s[1] in (1, True):
                ck.ob("successful-parse", f["n"], s[0], model.loc(f), "a value that is accepted must be stored (path %s)" % F.trace(B.exit, s))
    ck.floor("failed-parse", 6)
    ck.floor("successful-parse", 8)


def unparsable(ck, P):
    """a number that cannot be read is a refusal, not an exception that ends the tool"""
    classes = derived(P, BASE)
    for f in sorted(P.fns.values(), key=lambda f: f["key"]):
        if f.get("cls") not in classes or f["n"].split("::")[-1] != "parse" or not f.get("body"):
            continue
        B = cfg.Builder(P, inline=lambda g, c, d: bool(g.get("lambda")) or (g.get("cls") in classes or g["f"] == f["f"] and not g.get("cls")) and
                        g["n"].split("::")[-1] not in ("set_value", "add_value", "change_source", "primary_name", "format") and not (g["n"].split("::")[-1] == "parse" and not c.get("nv")), max_depth=3).build(f)
        D = flow.defs(B)

        def step(n, s, lab):
            if n.ast is not None and n.kind == "br" and lab in (True, False):
                x, p = c04.core(n.ast, D)
                if x is not None and x.get("k") == "Call" and x.get("op") in ("==", "!=") and any(sym.strlit(o) is not None for o in operands(x)) and (lab == p) == (x["op"] == "=="):
                    return True
            return s
        F = None
        for n in B.nodes:
            e = n.ast
            if n.kind != "ev" or e is None:
                continue
            if e.get("k") != "Call" or not (e.get("n") or "").startswith("std::sto"):
                continue
            F = F or flow.Flow(B, False, step)
            if n.i not in F.at or False not in F.at[n.i]:
                continue  # one of the texts it was compared with
            left = {"std::invalid_argument", "std::out_of_range"}
            h, guard = n.exc, 0
            while h is not None and left and guard < 20:
                guard += 1
                nd = B.nodes[h]
                nxt = None
                if nd.kind != "catch":
                    nxt = [i for i, l in nd.succ]
                    h = nxt[0] if len(nxt) == 1 else None
                    continue
                for i, l in nd.succ:
                    t = l[1] if isinstance(l, tuple) else ""
                    t = t.replace("const ", "").replace("&", "").strip()
                    if t == "uncaught":
                        nxt = i
                    elif t in ("...", "", "std::exception", "std::logic_error"):
                        left = set()
                    else:
                        left.discard(t)
                h = nxt
            ck.ob("refused-not-thrown", f["n"], not left, n.where(), "text that is no usable number is refused (%s would escape)" % ", ".join(sorted(left)))
    ck.floor("refused-not-thrown", 6)


FILLS = ("light", "projangle", "shadow_channel_mask", "surflight_minlight_scale")


def fills(ck, P):
    """what a light gets when its entity does not say: only then"""
    for f in sorted(P.fns.values(), key=lambda f: f["key"]):
        if f["f"] != "light/entities.cc" or not f.get("body"):
            continue
        if not any(x.get("k") == "Call" and short(x) == "set_value" and x.get("obj") is not None and setting_of(x["obj"]) in FILLS for x in fn_nodes(f)):
            continue
        B = cfg.Builder(P, inline=lambda g, c, d: bool(g.get("lambda")), max_depth=2, max_nodes=30000).build(f)
        D = flow.defs(B)

        def step(n, s, lab):
            e = n.ast
            if e is None or n.kind != "br" or lab not in (True, False):
                return s
            x, p = c04.core(e, D)
            if x is None:
                return s
            if x.get("k") == "Call" and short(x) == "is_changed":
                nm = setting_of(operands(x)[0])
                if nm in FILLS:
                    return s | {nm} if lab != p else s - {nm}
            if x.get("k") == "Bin" and x["op"] in ("==", "!="):
                for y in (strip(x["a"]), strip(x["b"])):
                    if y.get("k") == "Call" and short(y) == "get_source" and setting_of(operands(y)[0]) in FILLS:
                        return s | {setting_of(operands(y)[0])} if (lab == p) == (x["op"] == "==") else s
            return s
        F = flow.Flow(B, frozenset(), step)
        for n in B.nodes:
            e = n.ast
            if n.i not in F.at or n.kind != "ev" or e.get("k") != "Call" or short(e) != "set_value" or e.get("obj") is None:
                continue
            nm = setting_of(e["obj"])
            rr = [rank_of(a) for a in e.get("args", ()) if is_src(a.get("t", ""))]
            if nm not in FILLS or not rr or not rr[0]:
                continue
            v, i = strip(e["args"][0]), 0
            while v.get("k") == "Ref" and D.get(v.get("id")) is not None and i < 4:
                v, i = strip(D[v["id"]]), i + 1
            if cfg.cval(v) == 0 or v.get("k") in ("Float", "Real") and float(v.get("v", 1)) == 0:
                continue  # the light is switched off
            own = any(y.get("k") == "Call" and short(y) == "value" and setting_of(operands(y)[0]) == nm for y in walk(v))
            if own:
                continue  # adjusts the chosen value
            ck.ob("filled-in", "%s:%s" % (f["n"], nm), all(nm in s for s in F.at[n.i]), n.where(), "what the entity says is not replaced: the value is filled in only where the key was left out")
    ck.floor("filled-in", 3)


def clamp(ck, P):
    for f in sorted(P.fns.values(), key=lambda f: f["key"]):
        if not (f.get("cls") or "").startswith("settings::setting_numeric<") or f["n"].split("::")[-1] != "set_value" or not f.get("body"):
            continue
        B = cfg.Builder(P, inline=lambda g, c, d: not g["n"].startswith(("logging::", "settings::setting_value")), max_depth=3).build(f)
        D = flow.defs(B)
        val = B.frame0.map[f["params"][0]["id"]]
        # state: (below min?, above max?) each in None/True/False for the value finally stored, tracked for the parameter

        def bounded(e, st, d=0):
            """(lower ok, upper ok)"""
            e = strip(e)
            if e is None or d > 8:
                return (False, False)
            if e.get("k") == "Member" and e["f"] in ("_min", "_max"):
                return (True, True)
            if e.get("k") == "Ref":
                if e.get("id") == val:
                    return st
                if D.get(e.get("id")) is not None:
                    return bounded(D[e["id"]], st, d + 1)
                return st if e.get("id") in copies else (False, False)
            if e.get("k") == "Call" and e.get("n", "").startswith("std::"):
                m = short(e)
                a = e.get("args", ())
                f_ = lambda x: strip(x).get("f") if strip(x).get("k") == "Member" else None
                if m == "clamp" and len(a) == 3 and f_(a[1]) == "_min" and f_(a[2]) == "_max":
                    return (True, True)
                if m in ("min", "max") and len(a) == 2:
                    b = "_max" if m == "min" else "_min"
                    for x, y in ((a[0], a[1]), (a[1], a[0])):
                        if f_(y) == b:
                            r = bounded(x, st, d + 1)
                            return (r[0], True) if m == "min" else (True, r[1])
            if e.get("k") == "Cond":
                return (False, False)
            return (False, False)
        copies = set()

        def step(n, s, lab):
            e = n.ast
            if e is None:
                return s
            if n.kind == "br" and lab in (True, False):
                x, p = c04.core(e, D)
                if x is not None and x.get("k") == "Bin" and x["op"] in ("<", ">", "<=", ">="):
                    for a, b, op in ((x["a"], x["b"], x["op"]), (x["b"], x["a"], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[x["op"]])):
                        a, b = strip(a), strip(b)
                        if a.get("k") == "Ref" and (a.get("id") == val or a.get("id") in copies) and b.get("k") == "Member":
                            if lab != p:
                                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                            if b["f"] == "_min" and op in (">=", ">"):
                                return (True, s[1])
                            if b["f"] == "_max" and op in ("<=", "<"):
                                return (s[0], True)
                return s
            if n.kind == "ev" and lab != "exc":
                if e.get("k") == "Var" and e.get("init") is not None and strip(e["init"]).get("id") == val:
                    copies.add(e["id"])
                if e.get("k") == "Bin" and e["op"] == "=" and strip(e["a"]).get("id") in copies:
                    return bounded(e["b"], s)
            return s
        for r in range(2):
            F = flow.Flow(B, (False, False), step)
        n_ = 0
        for n in B.nodes:
            e = n.ast
            if n.i in F.at and n.kind == "ev" and e.get("k") == "Call" and short(e) in ("set_value",):
                n_ += 1
                for s in F.at[n.i]:
                    r = bounded(e["args"][0], s)
                    ck.ob("range", f["n"], all(r), n.where(), "the stored number must lie between the setting's minimum and maximum")
            t = effects.write_target(e) if n.i in F.at and n.kind == "ev" and e.get("k") in ("Bin", "Call") else None
            if t is not None and any(m["f"] == "_value" for m in effects.members(t)):
                n_ += 1
                for s in F.at[n.i]:
                    r = bounded(e.get("b") or e["args"][-1], s)
                    ck.ob("range", f["n"], all(r), n.where(), "the stored number must lie between the setting's minimum and maximum")
        ck.ob("range-applies", f["n"], n_ > 0, model.loc(f), "the number is stored")
    ck.floor("range", 2)


def run(ck):
    P = ck.load()
    order_rule(ck, P)
    gates(ck, P)
    passing(ck, P)
    constants(ck, P)
    errors(ck, P)
    clamp(ck, P)
    effects_of_parse(ck, P)
    unparsable(ck, P)
    fills(ck, P)
