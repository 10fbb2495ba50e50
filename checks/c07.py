"""C07: a result file that could not be written completely ends in an error."""
import cfg, effects, flow, model, streams
from flow import short

RULE = ("Typestate exploration over the inlined control-flow graph of every function that produces a result file. Each output file stream "
        "goes open/written -> flushed or closed -> state tested; on every path its life must end in the tested-good state, i.e. after the "
        "last write the buffer is handed to the system and failure is tested, and the failing branch must not return normally.")

ROOTS = [("WriteBSPFile", "the compiled map"), ("SaveVisState", "the vis state"), ("WritePortalfile", "the portal file"),
         ("WriteExtendedTexinfoFlags", "the texinfo sidecar"), ("WriteLitFile", "the .lit file"), ("WriteLuxFile", "the .lux file"),
         ("serialize_bsp", "the map description (JSON)"), ("ConvertMapFile", "the converted map source"), ("maputil_main", "the saved map source"),
         ("bsputil_main", "extracted entities, textures, lumps, decompiled maps")]
DIAG = ("export_obj_and_lightmaps",)


def run(ck):
    P = ck.load()
    for name, what in ROOTS:
        fs = [f for f in P.named(name) if f.get("body")]
        if not fs:
            raise model.AnalysisBroken("no function " + name)
        outs = 0
        for f in fs:
            small = name in ("maputil_main", "bsputil_main")

            def pol(fn, c, d, small=small):
                n = fn["n"]
                if n.startswith(("logging::", "fmt::", "ewt::", "Error", "VError")) or n in DIAG or n in [r[0] for r in ROOTS]:
                    return False
                t = [c2.get("t", "") for c2 in c.get("args", ())] + ([c["obj"].get("t", "")] if c.get("obj") else [])
                return any("fstream" in x for x in t) or any("fstream" in x.get("t", "") for x in model.fn_nodes(fn))
            try:
                B = cfg.Builder(P, inline=pol, max_depth=4, max_nodes=120000).build(f)
            except cfg.TooBig:
                B = cfg.Builder(P, inline=lambda *a: False, max_depth=1, max_nodes=200000).build(f)
            ks = streams.outstreams(B)
            for k, n in sorted(ks.items(), key=lambda x: x[1].i):
                S = streams.OutStream(B, k)
                bad = S.bad_ends()
                nm = n.ast.get("n") if n.ast["k"] == "Var" else model.path(n.ast)
                why = {"dirty": "is abandoned with data possibly unwritten and untested", "flushed": "is closed but its state is never tested",
                       "forgotten": "has its error state cleared before it was tested",
                       "failed": "is found failed, and the function still returns normally"}
                for nd, s in bad[:3]:
                    ck.ob("verified", "%s:%s" % (name, nm), False, n.where(), "the stream for %s %s (path %s)" % (what, why[s], S.trace(nd, s)))
                if not bad:
                    ck.ob("verified", "%s:%s" % (name, nm), True, n.where(), "closed and tested on all paths; failing branch ends in an error")
                ck.count("states_explored", S.F.visited)
            outs += len(ks)
            for n in streams.temporaries(B):
                ck.ob("verified", "%s:temporary" % name, False, n.where(), "a temporary file stream cannot be tested after writing")
        ck.ob("has-output", name, outs > 0, model.loc(fs[0]), "%s must be written through a file stream whose result is tested" % what)
    endings(ck, P)
    ck.floor("verified", 8)
    ck.floor("error-status", 6)


TOOLS = ("qbsp/", "light/", "vis/", "bsputil/", "maputil/", "bspinfo/")


def endings(ck, P):
    """an error that leaves the tool's work ends the process with a failure status, and nothing on the way up swallows it"""
    mains = [f for f in P.fns.values() if f["n"] == "main" and f["f"].startswith(TOOLS) and f.get("body")]
    for f in sorted(mains, key=lambda f: f["f"]):
        B = cfg.Builder(P, inline=lambda g, c, d: g["n"].startswith("exit_on_") or g["f"] == f["f"], max_depth=3).build(f)

        def step(n, s, lab):
            if isinstance(lab, tuple) and lab[0] == "handler":
                return "help" if "quit_after_help" in str(lab[1]) else "error"
            e = n.ast
            if s == "error" and e is not None and n.kind == "ev":
                if e.get("k") == "Return" and not n.chain:
                    v = cfg.cval(e["e"]) if e.get("e") is not None else 0
                    v = _status(e.get("e")) if v is None else v
                    return "ok" if v else "reported"
                if e.get("k") == "Call" and short(e) in ("exit", "_exit", "_Exit", "quick_exit"):
                    v = cfg.cval(e["args"][0]) if e.get("args") else 0
                    v = _status(e["args"][0]) if v is None and e.get("args") else v
                    if not v:
                        bad.append(n)
            return s
        bad = []
        F = flow.Flow(B, "start", step)
        ends = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Return" and any(m.i == B.exit.i for m, l in succ(B, n)) and "reported" in set(
            step(n, s, None) for s in F.states(n))]
        falls = "error" in F.states(B.exit)
        ck.ob("error-status", f["f"], not bad and not ends and not falls, (bad + ends + [B.nodes[0]])[0].where() if bad or ends else model.loc(f),
              "an error that reaches %s ends the tool with a non-zero status" % f["f"])
        tries = [x for x in model.fn_nodes(f) if x.get("k") == "Try"]
        del tries
    # nothing between the writers and main turns the error into a normal return
    roots = {f["key"] for name, w in ROOTS for f in P.named(name)} | {f["key"] for f in P.fns.values() if f["n"].endswith("_main") and f["f"].startswith(TOOLS)}
    writers = {f["key"] for name, w in ROOTS if not name.endswith("_main") for f in P.named(name)}
    cg = effects.callgraph(P)
    up = {}
    for a, bs in cg.items():
        for b in bs:
            up.setdefault(b, set()).add(a)
    reach, todo = set(writers), list(writers)
    while todo:
        for a in up.get(todo.pop(), ()):
            if a not in reach:
                reach.add(a)
                todo.append(a)
    for k in sorted(reach):
        f = P.fns[k]
        if not f["f"].startswith(TOOLS + ("common/",)) or f["n"] == "main":
            continue
        for x in model.fn_nodes(f):
            if x.get("k") != "Try":
                continue
            inner = x.get("body") or x.get("b")
            if inner is None or not any(g["key"] in reach for y in model.walk(inner) if y.get("k") in ("Call", "Construct") for g in P.callees(y)):
                continue
            for h in x.get("h", ()):
                t = str(h.get("t") or "...")
                if not any(w in t for w in ("std::exception", "runtime_error", "ericwtools_error", "...", "None")):
                    continue
                ends = [y for y in model.walk(h.get("body") or {}) if y.get("k") == "Throw" or y.get("k") == "Call" and (
                    short(y) in ("exit", "abort", "rethrow_exception", "terminate", "exit_on_exception", "Error", "FError_", "VError") or short(y).startswith("FError"))]
                ck.ob("not-swallowed", "%s:%d" % (f["n"].split("(")[0], 0), bool(ends), model.loc(f, h.get("body") or x),
                      "an error while a result is written is not swallowed on its way up")


def _status(e):
    e = model.strip(e)
    while e is not None and e.get("k") in ("Ref", "Paren") and e.get("init") is not None:
        e = model.strip(e["init"])
    return cfg.cval(e) if e is not None else None


def succ(B, n):
    for m, l in n.succ:
        yield (B.nodes[m] if isinstance(m, int) else m), l
