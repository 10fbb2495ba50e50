"""Element-access obligations on top of the facts engine."""
import re
from facts import Engine, Lin, base_type, SEQ
import cfg, model

ARR = re.compile(r"^(?:const )?std::array<.*, (\d+)>$")
CARR = re.compile(r"\[(\d+)\]$")
SIZED = re.compile(r"^(?:const )?std::(vector|basic_string|basic_string_view|span|deque)\b")


def inline_default(fn, call, depth):
    n = fn["n"]
    if n != "logging::assert_" and n.startswith(("logging::", "fmt::", "testing::")):
        return False
    return True


class Ob:
    __slots__ = ("node", "text", "base", "idx", "lo", "hi", "need")

    def __init__(self, node, text, base, idx, lo, hi, need):
        self.node, self.text, self.base, self.idx, self.lo, self.hi, self.need = node, text, base, idx, lo, hi, need

    @property
    def ok(self):
        return self.lo and self.hi

    def where(self):
        return self.node.where()


def base_limit(E, b, st):
    """(limit Lin or None, description) of a sequence expression b."""
    while b.get("k") == "Cast" and b.get("ck") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase"):
        b = b["e"]
    if b.get("k") == "Cast" and b.get("ck") == "ArrayToPointerDecay":
        m = CARR.search(b["from"])
        return (Lin({}, int(m.group(1))), "array") if m else (None, "array?")
    t = base_type(b.get("t", ""))
    m = ARR.match(t)
    if m:
        return Lin({}, int(m.group(1))), "array"
    m = re.match(r"^qvec<.*, (\d+)>$", t)
    if m:
        return Lin({}, int(m.group(1))), "qvec"
    m = re.match(r"^qmat<.*, (\d+), (\d+)>$", t)
    if m:
        return None, "qmat"
    if SIZED.match(t):
        term = E.term(b, st)
        if term is None:
            return None, "sequence"
        E.types["size(%s)" % term] = "size"
        return Lin({"size(%s)" % term: 1}), "sequence"
    m = re.match(r"^std::bitset<(\d+)>", t)
    if m:
        return Lin({}, int(m.group(1))), "bitset"
    return None, None


def obligations(E, n, st, regions=()):
    """Yield Ob for the event at node n (state before the event)."""
    e = n.ast
    if e is None:
        return
    k = e.get("k")
    if k == "Index":
        b, i = e["base"], e["idx"]
        lim, d = base_limit(E, b, st)
        L = E.lin(i, st)
        if lim is not None:
            yield mk(E, n, e, b, L, lim, st)
        else:
            # raw pointer
            A = E.addr(b, st)
            if A is not None and L is not None:
                o = region(E, n, e, A + L, st, regions)
                if o:
                    yield o
                    return
            yield Ob(n, model.path(e), model.path(b), str(L), False, False, "pointer of unknown extent")
    elif k == "Call" and e.get("op") == "[]" and len(e.get("args", ())) == 2:
        b, i = e["args"]
        lim, d = base_limit(E, b, st)
        if d is None:
            return
        L = E.lin(i, st)
        yield mk(E, n, e, b, L, lim, st)
    elif k == "Call" and e.get("obj") is not None and e.get("n", "").split("::")[-1] in ("front", "back", "pop_back") and not e.get("args"):
        lim, d = base_limit(E, e["obj"], st)
        if lim is not None:
            yield Ob(n, model.path(e), model.path(e["obj"]), "0", True, E.entails(st, lim.shift(-1)), "non-empty")
    elif k == "Un" and e["op"] == "*" and regions:
        L = E.lin(e["e"], st)
        if L is not None:
            o = region(E, n, e, L, st, regions)
            if o:
                yield o


def mk(E, n, e, b, L, lim, st):
    if L is None or lim is None:
        return Ob(n, model.path(e), model.path(b), str(L), False, False, "index or extent not linear")
    return Ob(n, model.path(e), model.path(b), str(L), E.entails(st, L), E.entails(st, (lim - L).shift(-1)), "0 <= %s < %s" % (L, lim))


def region(E, n, e, A, st, regions):
    """A: linear address. regions: list of (lo, hi) Lin."""
    ds = [t for t in A.c if t.startswith("data(")]
    if len(ds) == 1 and A.c[ds[0]] == 1:
        base = ds[0][5:-1]
        off = A - Lin({ds[0]: 1})
        E.types["size(%s)" % base] = "size"
        lim = Lin({"size(%s)" % base: 1})
        return Ob(n, model.path(e), base, str(off), E.entails(st, off), E.entails(st, (lim - off).shift(-1)), "0 <= %s < size" % off)
    best = None
    for lo, hi in regions:
        o = Ob(n, model.path(e), "region", str(A), E.entails(st, A - lo), E.entails(st, (hi - A).shift(-1)), "%s <= %s < %s" % (lo, A, hi))
        if o.ok:
            return o
        # same pointer family?
        if best is None or (o.lo or o.hi):
            best = o
    return best


def analyse(P, fn, entry=None, regions=None, depth=4, inline=inline_default, extra=None, max_nodes=60000):
    B = cfg.Builder(P, inline=inline, max_depth=depth, max_nodes=max_nodes).build(fn)
    out = []

    def ev(E, n, st):
        rg = regions(E, st) if regions else ()
        for o in obligations(E, n, st, rg):
            out.append(o)
        if extra:
            extra(E, n, st, out)

    E = Engine(B, P, on_event=ev, entry=entry)
    E.run()
    return out, B, E
