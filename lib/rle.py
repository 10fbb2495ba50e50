"""Run-length codes of visibility rows: what an encoder emits and what a decoder stores, from their path summaries."""
import re
import cfg, loops, model, sym
from absint import compare, deep
from model import AnalysisBroken


def terms(s):
    """canonical sum as {atom: coefficient}, '' for the constant"""
    out, d, cur = {}, 0, ""
    parts = []
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in "([<":
            d += 1
        elif ch in ")]>":
            d -= 1
        if d == 0 and s.startswith(" + ", i):
            parts.append(cur)
            cur = ""
            i += 3
            continue
        cur += ch
        i += 1
    parts.append(cur)
    for p in parts:
        m = re.match(r"^(-?\d+)(?:\*(.+))?$", p)
        if m and m.group(2) is None:
            out[""] = out.get("", 0) + int(m.group(1))
        elif m:
            out[m.group(2)] = out.get(m.group(2), 0) + int(m.group(1))
        else:
            out[p] = out.get(p, 0) + 1
    return {k: v for k, v in out.items() if v}


def minus(a, b, k=0):
    """a - b - k"""
    x = dict(terms(a))
    for t, c in terms(b).items():
        x[t] = x.get(t, 0) - c
    x[""] = x.get("", 0) - k
    return {t: c for t, c in x.items() if c}


def scaled(a, k):
    return {t: c * k for t, c in terms(a).items()}


def args(s, name):
    """arguments of name(...) when s is exactly that"""
    if not s.startswith(name + "(") or not s.endswith(")"):
        return None
    d, cur, out = 0, "", []
    for ch in s[len(name) + 1:-1]:
        d += (ch in "([<") - (ch in ")]>")
        if d < 0:
            return None
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur] if d == 0 else None


def wordat(place):
    """(array, index of the byte's word, bytes per word or None) of  A.w[div(x,4)]  /  A[x]"""
    m = re.match(r"^(.+?)\.w\[(.+)\]$", place)
    if m:
        a = args(m.group(2), "div")
        if a and len(a) == 2 and a[1].isdigit():
            return m.group(1), a[0], int(a[1])
    m = re.match(r"^(P\d+|v:[\d.]+)\[(.+)\]$", place)
    if m:
        return m.group(1), m.group(2), None
    return None


def byte(v):
    """index x when the value is byte x of a row: P[x], or the word at x/W shifted right by 8x mod 8W"""
    a = args(v, "mod")
    if a and a[1] == "256":
        v = a[0]
    a = args(v, "shr")
    if a:
        w = wordat(a[0])
        m = args(a[1], "mod")
        if w and w[2] and m and m[1] == str(8 * w[2]) and terms(m[0]) == scaled(w[1], 8):
            return w[1]
        return None
    w = wordat(v)
    return w[1] if w and w[2] is None else None


def eqs(g, W, mk=lambda s: s):
    """constants the value is known to equal, known to differ from"""
    eq, ne = set(), set()
    for a, pol in g:
        a = mk(a)
        if a == W:
            (ne if pol else eq).add(0)
        elif a.endswith(" == 0"):
            t = terms(a[:-5])
            c = t.pop("", 0)
            if t in ({W: 1}, {W: -1}):
                (eq if pol else ne).add(abs(c))
    return eq, ne


def leaving(S, h):
    """branches that leave the loop: (node, expression, polarity that stays)"""
    L = S.loop[h]
    out = []
    for i in L.body:
        n = S.B.nodes[i]
        if n.kind == "br":
            out_ = [lab for m, lab in S.B.succ[i]] if hasattr(S.B, "succ") else None
            out.append(n)
    return out


def encoder(S):
    """[(where, text)] of what is wrong, escape values"""
    B = S.B
    bad = []
    main = None
    for h, its in S.iters.items():
        if h == "F":
            continue
        for g, e, how in its:
            if any(x[0] in ("loop", "left") for x in e) and [x for x in e if emits(x)]:
                main = h
    if main is None:
        raise AnalysisBroken("run-length encoder: no loop that emits a byte and a count")
    where = B.nodes[main].where()
    esc, plain = set(), set()
    for g, e, how in S.iters[main]:
        W = [x[2] for x in e if emits(x)]
        if not W or how == "left":
            continue
        I = byte(W[0])
        if I is None:
            bad.append((where, "the value emitted (%s) is not a byte of the row" % W[0]))
            continue
        if len(terms(I)) != 1 or list(terms(I).values()) != [1] or not I.startswith("v:"):
            bad.append((where, "the byte emitted first is byte %s, not the current one" % I))
            continue
        new = [x[2] for x in e if x[0] == "let" and x[1] == I]
        if not new:
            bad.append((where, "the position does not advance"))
            continue
        eq, ne = eqs(g, W[0])
        if len(W) == 1:
            plain |= ne
            if minus(new[-1], I) != {"": 1}:
                bad.append((where, "after a single byte the position advances by %s" % minus(new[-1], I)))
            continue
        if len(W) > 2:
            bad.append((where, "%d bytes are emitted for one run" % len(W)))
            continue
        if len(eq) != 1:
            bad.append((where, "a repeat count is emitted for values %s" % (sorted(eq) or "not known")))
            continue
        esc |= eq
        if minus(new[-1], I) != terms(W[1]):
            bad.append((where, "the count emitted is %s but the position advances by %s" % (W[1], minus(new[-1], I))))
        sub = [x for x in e if x[0] in ("loop", "left")]
        if len(sub) != 1:
            bad.append((where, "the run is not counted by one loop"))
            continue
        how2, h2, sy = sub[0]
        k = sy[2:-1] if sy.startswith("i<") else None
        if k is None:
            bad.append((B.nodes[h2].where(), "the number of bytes looked at is not known"))
            continue
        if how2 == "loop" and minus(W[1], k) != {"": 1}:
            bad.append((B.nodes[h2].where(), "the run ends with the row after %s bytes, but the count emitted is %s" % (k, W[1])))
        if how2 == "left" and minus(W[1], sy) != {"": 1}:
            bad.append((B.nodes[h2].where(), "the run ends at byte %s of it, but the count emitted is %s" % (sy, W[1])))
        for g2, e2, how3 in S.iters[h2]:
            if how3 != "next":
                continue
            # the byte counted equals the run's value
            J = None
            for a, pol in g2:
                if pol and a.endswith(" == 0"):
                    t = terms(a[:-5])
                    if W[0] in t and len(t) == 2 and sorted(t.values()) == [-1, 1]:
                        J = [byte(x) for x in t if x != W[0]][0]
                c = byte(a[:-5] if a.endswith(" == 0") else a)
                if c is not None and eq == {0} and pol == a.endswith(" == 0"):
                    J = c
            if J is None:
                bad.append((B.nodes[h2].where(), "a byte is counted into the run without being equal to it"))
            elif minus(J, I) != terms("1 + 1*" + sy):
                bad.append((B.nodes[h2].where(), "the byte compared is byte %s, the one counted is %s after %s" % (J, "1 + 1*" + sy, I)))
    if esc - plain or plain - esc:
        bad.append((where, "a count follows the values %s, single bytes are all but %s" % (sorted(esc), sorted(plain))))
    return bad, esc, main


def emits(x):
    return x[0] == "=" and (x[1] == "?" or wordat(x[1]) is not None and wordat(x[1])[2] is None) or x[0] == "push"


def rawcopy(S, h, N):
    """the loop copies byte i of the row to byte i of the output, N of them"""
    bad = []
    sy = None
    for g, e, how in S.iters[h]:
        W = [x for x in e if emits(x)]
        if how != "next" or g or len(W) != 1:
            bad.append((S.B.nodes[h].where(), "a byte is left out of the plain copy under %s" % sorted(g)))
            continue
        w = wordat(W[0][1])
        J = byte(W[0][2])
        if J is None or w is None or terms(w[1]) != terms(J) or terms(J) != {"i<%s>" % N: 1}:
            bad.append((S.B.nodes[h].where(), "byte %s of the row is copied to byte %s of the output" % (J or W[0][2], w and w[1])))
    return bad


def decoder(S, pin, N=None):
    """[(where, text)], escape values; pin: name of the input pointer parameter, N: number of bytes of the row or None"""
    B = S.B
    bad = []
    main = None
    for h, its in S.iters.items():
        if h != "F" and any(any(x[0] in ("loop", "left") for x in e) for g, e, how in its):
            main = h
    if main is None:
        raise AnalysisBroken("run-length decoder: no loop with a run in it")
    where = B.nodes[main].where()
    X = "%s@%d" % (pin, main)

    def mk(s):
        s = s.replace("1*1 + 1*%s" % X, "1*COUNT")
        if s.startswith("1 + 1*%s" % X) and s == "1 + 1*%s" % X:
            return "COUNT"
        return s
    esc, plain, own = set(), set(), set()
    for g, e, how in S.iters[main]:
        sub = [x for x in e if x[0] in ("loop", "left")]
        steps = [x[2] for x in e if x[0] == "=" and x[1] == pin]
        used = minus(steps[-1], X).get("", 0) if steps else 0
        eq, ne = eqs(g, X)
        ends = [a for a, p in g if "&P" in a or " - " in a]
        if how == "left":
            # only damaged input ends the expansion early
            if not any(p and a.endswith(" == 0") and "&P" in a for a, p in g) and not any(mk(a) == "COUNT" and not p or mk(a) in ("1*COUNT == 0", "COUNT == 0") and p for a, p in g) and not any(
                    x[0] == "left" for x in e):
                bad.append((where, "the expansion can end although the input is sound, under %s" % sorted(mk(a) for a, p in g)))
            continue
        st = [x for x in e if x[0] in ("=", "|=") and (x[2] == X or x[2].startswith("shl(")) and x[1] != pin]
        pos = None
        for x in st:
            w = wordat(x[1])
            if w is None and x[2] == X:
                pos = ("ptr", x[1])
            elif w is not None:
                a = args(x[2], "shl")
                m = a and args(a[1], "mod")
                if not (a and a[0] == X and w[2] and m and m[1] == str(8 * w[2]) and terms(m[0]) == scaled(w[1], 8)):
                    bad.append((where, "the byte is stored as %s at %s" % (x[2], x[1])))
                else:
                    pos = ("idx", w[1])
        if pos:
            own.add(pos[1].split("@")[0])
        new = [x[2] for x in e if x[0] == "let" and pos and pos[0] == "idx" and x[1] == pos[1]]
        for a, p in g:
            a = mk(a)
            if "COUNT" in a:
                t = terms(a[:-4]) if a.endswith(" < 0") else terms(a[:-5]) if a.endswith(" == 0") else {a: 1}
                t = dict(t)
                ok = a == "COUNT" and p or a.endswith(" < 0") and t == {"": -1, "COUNT": 1} and not p or a.endswith(" == 0") and t in ({"COUNT": 1}, {"COUNT": -1}) and not p
                if a.endswith(" < 0") and t.get("COUNT") == 1 and N:
                    rest = {k: c for k, c in t.items() if k != "COUNT"}
                    want = {k: -c for k, c in terms(N).items()}
                    for z in ([pos[1]] if pos and pos[0] == "idx" else []):
                        want[z] = want.get(z, 0) + 1
                    want[""] = want.get("", 0) - 1
                    ok = ok or p and rest == {k: c for k, c in want.items() if c}
                if not ok:
                    bad.append((where, "a repeat count is accepted only under %s" % a))
        if not sub:
            plain |= ne
            if used != 1:
                bad.append((where, "a single byte uses %d bytes of input" % used))
            if len(st) != 1:
                bad.append((where, "a single byte is stored %d times" % len(st)))
            elif pos and pos[0] == "idx" and (not new or minus(new[-1], pos[1]) != {"": 1}):
                bad.append((where, "after a single byte the position advances by %s" % (new and minus(new[-1], pos[1]))))
            elif pos and pos[0] == "ptr":
                base = pos[1].split("@")[0]
                nx = [x[2] for x in e if x[0] == "=" and x[1] == base]
                if not nx or minus(nx[-1], pos[1]) != {"": 1}:
                    bad.append((where, "after a single byte the output advances by %s" % (nx and minus(nx[-1], pos[1]))))
            continue
        if len(eq) != 1:
            bad.append((where, "a repeat count is read after values %s" % (sorted(eq) or "not known")))
            continue
        esc |= eq
        if used != 2:
            bad.append((where, "a run uses %d bytes of input" % used))
        how2, h2, sy = sub[0]
        sy0 = sy
        n = mk(sy[2:-1]) if sy.startswith("i<") else None
        if n is None or minus(n, "COUNT") not in ({}, {"": -1}) or minus(n, "COUNT").get("", 0) != -len(st):
            bad.append((B.nodes[h2].where(), "a run stores %d + %s bytes" % (len(st), n)))
            continue
        if pos and pos[0] == "idx" and (not new or mk_minus(mk, new[-1], pos[1]) != {"COUNT": 1}):
            bad.append((where, "after a run the position advances by %s" % (new and mk_minus(mk, new[-1], pos[1]))))
        for g2, e2, how3 in S.iters[h2]:
            st2 = [x for x in e2 if x[0] in ("=", "|=") and (x[1].startswith("P") and ".w[" in x[1] or x[1].startswith(("1*P", "P")) and "@" in x[1]) and x[1] != pin]
            if how3 != "next":
                if not any("&P" in a and p for a, p in g2):
                    bad.append((B.nodes[h2].where(), "a run can end early under %s" % sorted(a for a, p in g2)))
                continue
            if len(st2) != 1:
                bad.append((B.nodes[h2].where(), "one round of a run stores %d bytes" % len(st2)))
                continue
            x = st2[0]
            w = wordat(x[1])
            if w is not None:
                a = args(x[2], "shl")
                m = a and args(a[1], "mod")
                if not (a and a[0] in (X, str(list(eq)[0])) and m and m[1] == str(8 * w[2]) and terms(m[0]) == scaled(w[1], 8)):
                    bad.append((B.nodes[h2].where(), "the repeated byte is stored as %s at %s" % (x[2], x[1])))
                elif pos and minus(w[1], pos[1], len(st)) != {sy0: 1}:
                    bad.append((B.nodes[h2].where(), "repeated byte k is stored at %s" % w[1]))
            else:
                t = terms(x[1])
                if sy0 not in t or t[sy0] != 1 or len(t) != 2 or x[2] not in (X, str(list(eq)[0])):
                    bad.append((B.nodes[h2].where(), "repeated byte k is stored as %s at %s" % (x[2], x[1])))
    if esc != plain:
        bad.append((where, "a count is read after the values %s, single bytes are all but %s" % (sorted(esc), sorted(plain))))
    return bad, esc, main, own


def mk_minus(mk, a, b):
    x = dict(terms(mk(a)))
    for t, c in terms(mk(b)).items():
        x[t] = x.get(t, 0) - c
    return {t: c for t, c in x.items() if c}


def complete(S, h, N, limit=(), own=None):
    """the loop over the row ends only at the row's end (or at a limit on one of the pointers named); N: canonical length or the end pointer's parameter"""
    bad = []
    L = S.loop[h]
    last = {}
    for g, e, how in S.iters["F"]:
        for x in e:
            if x[0] == "let":
                last[x[1]] = x[2]
    prm = {str(S.B.frame0.map[p["id"]]): "P%d" % i for i, p in enumerate(S.f["params"])} if S.f else {}

    def val(e):
        e = deep(e)
        if e.get("k") == "Ref":
            i = str(e.get("id"))
            return prm.get(i) or last.get("v:" + i, "v:" + i) if i not in moved else "v:" + i
        c = cfg.cval(e)
        if c is not None:
            return str(c)
        v = S.val(e, {})
        return S.plain(v[1]) if v is not None and v[0] == "R" else None
    cur = {str(v) for v in L.ind} | {str(v) for v in L.assigned}
    moved = {str(v) for l in S.loop.values() for v in set(l.ind) | set(l.assigned)}
    exits = 0
    for i in sorted(L.body):
        n = S.B.nodes[i]
        if n.kind != "br" or not n.succ or L.exit is None:
            continue
        out = [l for s, l in n.succ if s not in L.body and s != h and S.B.exit.i in loops.reach_from(S.B, [s])]
        if not out or not n.ast:
            continue
        c = compare(n.ast)
        ids = {str(x.get("id")) for x in model.walk(n.ast) if x.get("k") == "Ref"}
        if any(prm.get(x) in limit or last.get("v:" + x, "").lstrip("&") in limit for x in ids):
            continue
        exits += 1
        if not c:
            if own:
                exits -= 1
                continue
            bad.append((n.where(), "the loop over the row ends under a condition that is not its length"))
            continue
        op, a, b = c
        if own and not any(prm.get(str(x.get("id")), "v:%s" % x.get("id")) in own for x in model.walk(n.ast) if x.get("k") == "Ref"):
            exits -= 1
            continue
        if out[0] is True:
            op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            x = deep(x)
            if x.get("k") == "Ref" and str(x.get("id")) in cur and (not own or prm.get(str(x["id"]), "v:%s" % x["id"]) in own):
                v = val(y)
                if o not in ("<", "!=") or v is None or terms(v) != terms(N):
                    bad.append((n.where(), "the row is taken up to %s %s, not up to %s" % (o, v, N)))
                break
        else:
            bad.append((n.where(), "the loop over the row ends under a condition that is not its length"))
    if not exits:
        bad.append((S.B.nodes[h].where(), "nothing ends the loop at the row's end"))
    return bad
