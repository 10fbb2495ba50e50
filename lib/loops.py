"""Loops of an inlined CFG: natural bodies, and 'does this happen for every element?'"""
import cfg, model


def succs(B, i):
    return [s for s, l in B.nodes[i].succ]


def preds(B):
    p = getattr(B, "_preds", None)
    if p is None:
        p = {}
        for n in B.nodes:
            for s, l in n.succ:
                p.setdefault(s, []).append(n.i)
        B._preds = p
    return p


def reach_from(B, starts, stop=()):
    seen, st = set(), [s for s in starts if s not in stop]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(s for s in succs(B, x) if s not in seen and s not in stop)
    return seen


def body(B, h):
    """Nodes of the natural loop of head h."""
    c = getattr(B, "_bodies", None)
    if c is None:
        c = B._bodies = {}
    if h not in c:
        c[h] = natural(B, h)
    return c[h]


def natural(B, h):
    """Natural loop of head h: nodes that reach a back edge of h without passing h."""
    dom_free = reach_from(B, [B.entry.i], stop=(h,))  # reachable without h
    P = preds(B)
    back = [p for p in P.get(h, ()) if p not in dom_free and p in reach_from(B, [h])]
    seen, st = {h}, list(back)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(P.get(x, ()))
    return seen if back else set()


def loops_of(B, i):
    """Loop heads containing node i, innermost first."""
    hs = [n.i for n in B.nodes if n.kind == "loop" and i in body(B, n.i)]
    return sorted(hs, key=lambda h: len(body(B, h)))


def assigned_in(B, vid, nodes):
    out = []
    for i in nodes:
        e = B.nodes[i].ast
        if e is None or B.nodes[i].kind != "ev":
            continue
        k = e.get("k")
        if k == "Bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=") and model.strip(e["a"]).get("id") == vid:
            out.append((i, e))
        elif k == "Un" and e["op"] in ("++", "--", "p++", "p--") and model.strip(e["e"]).get("id") == vid:
            out.append((i, e))
        elif k == "Call" and e.get("op") in ("++", "--", "+=", "-=", "=") and e["args"] and model.strip(e["args"][0]).get("id") == vid:
            out.append((i, e))
    return out


def step_ok(e):
    if e.get("k") == "Un":
        return e["op"] in ("++", "p++")
    if e.get("k") == "Bin":
        return e["op"] == "+=" and cfg.cval(e["b"]) == 1
    if e.get("k") == "Call":
        return e.get("op") == "++"
    return False


def var_init(B, vid):
    r = [n.ast.get("init") for n in B.nodes if n.kind == "ev" and n.ast.get("k") == "Var" and n.ast.get("id") == vid]
    return r[0] if len(r) == 1 else None


def every_iteration(B, h, entry, i):
    """Each pass from entry back to h goes through i, and the body is left only through h's own exit."""
    bd = body(B, h)
    r = reach_from(B, [entry], stop=(i,))
    if entry != i and h in r:
        return False, "an iteration can skip it"
    return True, ""


def covers(B, node):
    """(ok, why): node runs exactly for every element of a sequence (innermost loop)."""
    hs = loops_of(B, node.i)
    if not hs:
        return False, "not in a loop: elements beyond the first are not handled"
    h = hs[0]
    H = B.nodes[h]
    bd = body(B, h)
    ex = H.extra
    if ex and ex[0] in ("rfor", "lambda"):
        entry = [s for s, l in H.succ if l == "iter"][0]
        for i in bd:
            for s, l in B.nodes[i].succ:
                if s not in bd and not (i == h and l == "done") and not terminal(B, s, B.nodes[i], l):
                    return False, "the loop can stop early (%s)" % B.nodes[i].where()
        ok, why = every_iteration(B, h, entry, node.i)
        return ok, why or "range loop over %s" % (model.path(ex[2]) if ex[0] == "rfor" else model.path(ex[1]))
    # counted loop
    exits = []
    for i in bd:
        for s, l in B.nodes[i].succ:
            if s not in bd and not terminal(B, s, B.nodes[i], l):
                exits.append((i, l))
    if len(exits) != 1 or B.nodes[exits[0][0]].kind != "br":
        return False, "the loop can stop early (%s)" % ", ".join(B.nodes[i].where() for i, l in exits)
    c = B.nodes[exits[0][0]].ast
    op, a, b = None, None, None
    if c.get("k") == "Bin":
        op, a, b = c["op"], model.strip(c["a"]), c["b"]
    elif c.get("k") == "Call" and c.get("op") in ("!=", "<", "=="):
        op, a, b = c["op"], model.strip(c["args"][0]), c["args"][1]
    if op in (">", "!=") and a is not None and a.get("k") != "Ref" and model.strip(b).get("k") == "Ref":
        a, b = model.strip(b), a
        op = "<" if op == ">" else op
    if op not in ("<", "!=") or a.get("k") != "Ref":
        return False, "loop condition %s not recognised as counting up to a size" % model.path(c)
    vid = a.get("id")
    init = var_init(B, vid)
    sinit = model.strip(init) if init else None
    isbegin = sinit is not None and sinit.get("k") == "Call" and sinit.get("n", "").split("::")[-1] in ("begin", "cbegin", "data")
    if init is None or not (cfg.cval(init) == 0 or isbegin):
        return False, "the loop does not start at the first element (%s)" % model.path(init)
    sb = model.strip(b)
    if sb.get("k") == "Ref" and "id" in sb:
        vi = var_init(B, sb["id"])
        if vi is not None and not assigned_in(B, sb["id"], range(len(B.nodes))):
            sb = model.strip(vi)
    if isbegin:
        okb = sb.get("k") == "Call" and sb.get("n", "").split("::")[-1] in ("end", "cend") or sb.get("k") == "Bin" and sb["op"] == "+"
    else:
        okb = sb.get("k") == "Call" and sb.get("n", "").split("::")[-1] in ("size", "length", "ssize") or cfg.cval(b) is not None or (
            sb.get("k") in ("Member", "Ref"))
    if not okb:
        return False, "the loop bound %s is not the size of a sequence" % model.path(b)
    steps = assigned_in(B, vid, bd)
    if len(steps) != 1 or not step_ok(steps[0][1]):
        return False, "the loop does not advance by one element"
    entry = [s for s, l in B.nodes[exits[0][0]].succ if s in bd][0]
    ok, why = every_iteration(B, h, entry, node.i)
    return ok, why or "counted loop to %s" % model.path(b)


def terminal(B, s, n, l):
    return l in ("throw", "noreturn", "exc")
