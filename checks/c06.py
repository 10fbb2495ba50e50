"""C06: visibility-row (de)compression stays inside its buffers."""
import bounds, cfg, model
from facts import Lin, Engine

RULE = ("Linear-inequality dataflow over the inlined control-flow graph. Inside the row decompressor every dereference of the "
        "input cursor must be provably below the end of the input and every dereference of the output cursor provably below the "
        "end of the row, assuming only cursor <= end on entry; every call site must provably establish that assumption from the "
        "container the pointers come from; the compressor may only read inside the row it is given, and every repeat count it "
        "emits must provably lie in 1..255.")


def pv(E, i):
    return "v:" + E.B.frame0.map[E.B.fn["params"][i]["id"]]


def run(ck):
    P = ck.load("common", "vis")
    dv = P.fn("DecompressVis")
    if [p["t"].endswith("*") for p in dv["params"]] != [True] * 4:
        raise model.AnalysisBroken("DecompressVis no longer takes (in, inend, out, outend)")

    def ent(E, st):
        E.add(st, Lin({pv(E, 1): 1}) - Lin({pv(E, 0): 1}))
        E.add(st, Lin({pv(E, 3): 1}) - Lin({pv(E, 2): 1}))

    writes = []

    def visit(E, n, st):
        e = n.ast
        x = None
        if e.get("k") == "Un" and e["op"] == "*":
            x = E.lin(e["e"], st)
        elif e.get("k") == "Index" and e["base"].get("t", "").endswith("*"):
            a, b = E.addr(e["base"], st), E.lin(e["idx"], st)
            x = a + b if a is not None and b is not None else None
        else:
            if e.get("k") == "Call" and e.get("n", "").split("::")[-1] in ("memset", "memcpy", "memmove", "fill_n", "fill", "copy", "copy_n"):
                bulk(ck, E, n, st)
            return
        writes.append(n)
        isout = "const" not in e["e" if e["k"] == "Un" else "base"].get("t", "")
        lo, hi = (2, 3) if isout else (0, 1)
        key = "%s:%s" % (E.B.fn["n"], model.path(e))
        ok = False
        if x is not None:
            ok = E.entails(st, (Lin({pv(E, hi): 1}) - x).shift(-1))
        ck.ob("decompress.deref", key, ok, n.where(), "%s cursor must be strictly below its end here (address %s)" % ("output" if isout else "input", x))

    def bulk(ck, E, n, st):
        e = n.ast
        m = e["n"].split("::")[-1]
        a = e["args"]
        key = "%s:%s" % (E.B.fn["n"], model.path(e))
        end = lambda which: Lin({pv(E, which): 1})
        oks = []
        if m in ("memset", "memcpy", "memmove"):
            d, c = E.lin(a[0], st), E.lin(a[2], st)
            oks.append(d is not None and c is not None and E.entails(st, end(3) - d - c))
            if m != "memset":
                s = E.lin(a[1], st)
                oks.append(s is not None and c is not None and E.entails(st, end(1) - s - c))
        elif m == "fill_n":
            d, c = E.lin(a[0], st), E.lin(a[1], st)
            oks.append(d is not None and c is not None and E.entails(st, end(3) - d - c))
        elif m == "fill":
            d = E.lin(a[1], st)
            oks.append(d is not None and E.entails(st, end(3) - d))
        elif m == "copy":
            s, t, d = (E.lin(x, st) for x in a[:3])
            oks.append(t is not None and E.entails(st, end(1) - t))
            oks.append(None not in (s, t, d) and E.entails(st, end(3) - d - t + s))
        elif m == "copy_n":
            s, c, d = (E.lin(x, st) for x in a[:3])
            oks.append(None not in (s, c) and E.entails(st, end(1) - s - c))
            oks.append(None not in (d, c) and E.entails(st, end(3) - d - c))
        writes.append(n)
        ck.ob("decompress.deref", key, all(oks), n.where(), "block operation must stay inside the input / output row")

    B = cfg.Builder(P, inline=bounds.inline_default, max_depth=4).build(dv)
    Engine(B, P, on_event=visit, entry=ent).run()
    ck.floor("decompress.deref", 1)

    # --- call sites
    nocall = lambda fn, c, d: bounds.inline_default(fn, c, d) and fn["n"] != "DecompressVis" and not (
        c.get("m") == 2 and c.get("t") in ("int", "unsigned int", "unsigned long"))
    callers = [f for f in P.fns.values() if f.get("body") and any(
        x.get("k") == "Call" and x.get("fn") == dv["key"] for x in model.fn_nodes(f)) and not f.get("lambda")]
    callers.sort(key=lambda f: (f["f"], f["l"]))
    for f in callers:
        def at(E, n, st):
            e = n.ast
            if e.get("k") != "Call" or e.get("fn") != dv["key"]:
                return
            a = [E.lin(x, st) for x in e["args"]]
            for lo, hi, what in ((0, 1, "compressed data"), (2, 3, "row buffer")):
                key = "%s->DecompressVis:%s" % (f["n"], model.path(e["args"][lo]))
                ok, why = False, ""
                if a[lo] is not None and a[hi] is not None:
                    ds = [t for t in a[hi].c if t.startswith("data(")]
                    if len(ds) == 1:
                        base = ds[0][5:-1]
                        D = Lin({ds[0]: 1})
                        S = Lin({"size(%s)" % base: 1})
                        ok = E.entails(st, a[lo] - D) and E.entails(st, a[hi] - a[lo]) and E.entails(st, D + S - a[hi])
                        why = "start offset %s, end offset %s of %s" % (a[lo] - D, a[hi] - D, base)
                ck.ob("callsite", key, ok, n.where(), "must pass start <= end, both inside the %s container (%s)" % (what, why))
                ck.count("call_sites")
        B = cfg.Builder(P, inline=nocall, max_depth=2).build(f)
        Engine(B, P, on_event=at).run()
    ck.floor("callsite", 2)

    # --- compressor
    cr = P.fn("CompressRow")

    def comp(E, n, st):
        e = n.ast
        if e.get("k") == "Index" and e["base"].get("t", "").endswith("*") or e.get("k") == "Un" and e["op"] == "*" and e["e"].get("t", "").startswith("const"):
            if e["k"] == "Index":
                a, b = E.addr(e["base"], st), E.lin(e["idx"], st)
                x = a + b if a is not None and b is not None else None
            else:
                x = E.lin(e["e"], st)
            base = Lin({pv(E, 0): 1})
            end = base + Lin({pv(E, 1): 1})
            ok = x is not None and E.entails(st, x - base) and E.entails(st, (end - x).shift(-1))
            ck.ob("compress.read", "CompressRow:" + model.path(e), ok, n.where(), "read must lie inside the row (address %s)" % x)
        emitted = None
        if e.get("k") == "Call" and e.get("op") == "=" and "back_insert_iterator" in e["args"][0].get("t", ""):
            emitted = e["args"][1]
        elif e.get("k") == "Call" and e.get("n", "").split("::")[-1] in ("push_back", "emplace_back") and e.get("args"):
            emitted = e["args"][0]
        if emitted is not None:
            core = model.strip(emitted)
            src = core
            if core.get("k") == "Ref":
                src = core
            isbyte = core.get("k") in ("Index",) or (core.get("t", "").replace("const ", "") == "unsigned char")
            if isbyte:
                return
            L = E.lin(core, st)
            ok = L is not None and E.entails(st, L.shift(-1)) and E.entails(st, L.scale(-1).shift(255))
            ck.ob("compress.run", "CompressRow:" + model.path(core), ok, n.where(), "emitted repeat count must lie in 1..255 (%s)" % L)

    B = cfg.Builder(P, inline=bounds.inline_default, max_depth=4).build(cr)
    Engine(B, P, on_event=comp).run()
    ck.floor("compress.read", 1)
    ck.floor("compress.run", 1)
