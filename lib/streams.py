"""Typestate of output file streams: open/written -> flushed -> verified."""
import cfg, model, flow
from flow import key, short, operands
from model import strip, walk

OFS = ("std::basic_ofstream<char", "std::ofstream", "std::basic_fstream<char")
QUERY = {"operator!": False, "operator bool": True, "good": True, "fail": False}
NEUTRAL = {"bad", "is_open", "eof", "rdstate", "tellp", "exceptions", "rdbuf", "precision", "width", "flags"}


def is_ofs(t):
    t = (t or "").replace("const ", "")
    return t.startswith(OFS) and not t.endswith("*")


def mentions(e, k):
    for x in walk(e):
        if x.get("k") in ("Ref", "Member") and key(x) == k:
            return True
    return False


class OutStream:
    """states: closed | dirty | flushed | ok | failed | exc (stream throws by itself)"""

    def __init__(self, B, k, initially="closed"):
        self.B, self.k = B, k
        self.defs = flow.defs(B)
        self.flags = set()
        for n in B.nodes:
            e = n.ast
            if e is not None and n.kind == "ev":
                if e.get("k") == "Var" and e.get("t", "").replace("const ", "") == "bool" and e.get("init") is not None and mentions(e["init"], k):
                    self.flags.add(e["id"])
                elif e.get("k") == "Bin" and e["op"] == "=" and strip(e["a"]).get("k") == "Ref" and strip(e["a"]).get("t", "") == "bool" and mentions(e["b"], k):
                    self.flags.add(strip(e["a"])["id"])
        self.F = flow.Flow(B, (initially, frozenset()), self.step2)

    def chained(self, e, d=0):
        """stream.flush() and the like yield the stream again"""
        e = strip(e)
        if e is not None and e.get("k") == "Call" and d < 6 and operands(e) and (short(e) in ("flush", "write", "seekp", "put") or e.get("op") == "<<"):
            return key(operands(e)[0]) == self.k or self.chained(operands(e)[0], d + 1)
        return False

    def polarity(self, e, depth=0, named=True):
        e = strip(e)
        if e is None or depth > 6:
            return None
        if e.get("k") == "Call":
            m = short(e)
            ops = operands(e)
            if m in QUERY and ops and (key(ops[0]) == self.k or self.chained(ops[0])):
                return QUERY[m]
        if e.get("k") == "Un" and e["op"] == "!":
            p = self.polarity(e["e"], depth + 1, named)
            return None if p is None else not p
        if named and e.get("k") == "Ref" and e.get("t", "").replace("const ", "") != "bool" and e.get("id") in self.defs and self.defs[e["id"]] is not None:
            return self.polarity(self.defs[e["id"]], depth + 1)
        return None

    def step2(self, n, st, lab):
        """the stream's state and what named test results stand for"""
        s, V = st
        e = n.ast
        if e is not None and n.kind == "ev" and lab != "exc":
            i = v = None
            if e.get("k") == "Var" and e.get("t", "").replace("const ", "") == "bool" and e.get("init") is not None:
                i, v = e["id"], e["init"]
            elif e.get("k") == "Bin" and e["op"] == "=" and strip(e["a"]).get("k") == "Ref" and strip(e["a"]).get("t", "") == "bool":
                i, v = strip(e["a"])["id"], e["b"]
            if i is not None:
                W, V = V, frozenset(x for x in V if x[0] != i)
                if i not in self.flags:
                    return (s, V)
                w = self.known(v, s, W)
                if w is not None:
                    return (s, V | {(i, w)})
                if any(self.polarity(x, named=False) is not None for x in walk(v)):
                    out = []
                    for good in (True, False):
                        t = self.tested(s, good)
                        w = self.known(v, t, W, good=good) if t is not None else None
                        if w is not None:
                            out.append((t, V | {(i, w)}))
                        elif t is not None:
                            out.append((s, V))
                    return out or None
                return (s, V)
        if e is not None and n.kind == "br" and lab in (True, False):
            c, pol = strip(e), True
            while c is not None and c.get("k") == "Un" and c["op"] == "!":
                c, pol = strip(c["e"]), not pol
            if c is not None and c.get("k") == "Ref":
                for i, v in V:
                    if i == c.get("id"):
                        return st if v == (lab == pol) else None
                if c.get("id") in self.flags:
                    return (s, V | {(c["id"], lab == pol)})
        r = self.step(n, s, lab)
        return None if r is None else (r, V)

    def known(self, e, s, V, d=0, good=None):
        """a condition's value where the tests made so far decide it"""
        e = strip(e)
        if e is None or d > 8:
            return None
        if e.get("k") == "Un" and e["op"] == "!":
            w = self.known(e["e"], s, V, d + 1, good)
            if w is not None:
                return not w
        if e.get("k") == "Bin" and e["op"] in ("||", "&&"):
            a, b = self.known(e["a"], s, V, d + 1, good), self.known(e["b"], s, V, d + 1, good)
            stop = e["op"] == "||"
            if a is stop or b is stop:
                return stop
            return None if a is None or b is None else not stop
        if e.get("k") == "Ref":
            for i, v in V:
                if i == e.get("id"):
                    return v
        if cfg.cval(e) in (0, 1):
            return bool(cfg.cval(e))
        p = self.polarity(e, named=False)
        if p is not None and good is not None:
            return p == good
        if p is not None and s in ("ok", "failed"):
            return p == (s == "ok")
        return None

    @staticmethod
    def tested(s, good):
        if s == "forgotten":
            return s
        if good:
            return "ok" if s in ("flushed", "ok") else None if s == "failed" else s
        return "failed" if s in ("dirty", "flushed", "failed") else None if s in ("ok",) else s

    def step(self, n, s, lab):
        e = n.ast
        if e is None:
            return s
        if n.kind == "br":
            p = self.polarity(e)
            if p is not None and lab in (True, False):
                return self.tested(s, lab == p)
            return s
        if n.kind != "ev" or lab == "exc":
            return s
        k = e.get("k")
        if k == "Var" and e["id"] == self.k:
            i = e.get("init")
            i = strip(i) if i is not None else None
            if i is not None and i.get("k") == "Construct" and not i.get("args"):
                return "closed"
            return "dirty" if i is not None else "closed"
        if k == "Call":
            ops = operands(e)
            m = short(e)
            first = ops and key(ops[0]) == self.k
            if first and m == "clear":
                return "forgotten" if s in ("dirty", "flushed", "failed") else s
            if first and m in ("close", "flush"):
                return {"dirty": "flushed", "flushed": "flushed"}.get(s, s)
            if first and m == "exceptions" and len(ops) > 1:
                return "exc"
            if m in QUERY and ops and self.chained(ops[0]):
                return s
            if first and (m in QUERY or m in NEUTRAL and len(ops) == 1):
                return s
            if first and m == "open":
                return "exc" if s == "exc" else "dirty"
            if s == "forgotten":
                return s
            if any(mentions(o, self.k) for o in ops) and not any(x.get("k") == "Lambda" for o in ops for x in walk(o)):
                # manipulators such as std::flush / std::endl write and flush: still "dirty" unless closed later
                if s == "closed":
                    return "dirty"
                return s if s in ("exc",) else "dirty"
        if k == "Construct" and any(mentions(o, self.k) for o in e.get("args", ())):
            return s if s in ("exc", "closed", "forgotten") else "dirty"
        return s

    def trace(self, n, s):
        for st in self.F.states(n):
            if st[0] == s:
                return self.F.trace(n, st)
        return "?"

    def bad_ends(self):
        """[(node, state)] where the stream's life ends without a verified, flushed result."""
        root = self.k.split(".")[0] if not self.k[0].isdigit() else None
        out = []
        ended = False
        for n in self.B.nodes:
            e = n.ast
            if n.kind == "ev" and e is not None and e.get("k") == "ScopeEnd" and (self.k == e["id"] or self.k.startswith(e["id"] + ".")):
                ended = True
                for s in sorted({x[0] for x in self.F.states(n)}):
                    if s in ("dirty", "flushed", "failed", "forgotten"):
                        out.append((n, s))
        if not ended:
            for s in sorted({x[0] for x in self.F.states(self.B.exit)}):
                if s in ("dirty", "flushed", "failed", "forgotten"):
                    out.append((self.B.exit, s))
        return out


def outstreams(B):
    """keys of output file streams opened in this graph: local variables and members of local variables"""
    out = {}
    for n in B.nodes:
        e = n.ast
        if e is None or n.kind != "ev":
            continue
        if e.get("k") == "Var" and is_ofs(e.get("t")) and not e["t"].endswith("&"):
            i = strip(e.get("init")) if e.get("init") is not None else None
            out.setdefault(e["id"], n)
        if e.get("k") == "Call" and short(e) == "open" and operands(e) and is_ofs(operands(e)[0].get("t")):
            k = key(operands(e)[0])
            if k:
                out.setdefault(k, n)
    return out


def temporaries(B):
    """file streams that are opened as unnamed temporaries (nothing can check them)"""
    held = set()
    for n in B.nodes:
        e = n.ast
        if e is not None and n.kind == "ev" and e.get("k") == "Var" and e.get("init") is not None:
            for x in walk(e["init"]):
                held.add(id(x))
                if x.get("k") == "Construct":
                    held.add((x.get("l"), x.get("cls")))
    out = []
    for n in B.nodes:
        e = n.ast
        if e is not None and n.kind == "ev" and e.get("k") == "Construct" and is_ofs(e.get("t")) and e.get("args") and id(e) not in held and (
                e.get("l"), e.get("cls")) not in held:
            out.append(n)
    return out
