"""C22: damaged input is never read outside its bytes, and nothing that could not be read is used."""
import re
import bounds, cfg, flow, model
from facts import Engine, INT_RANGE, Lin, base_type
from flow import key, operands, short
from model import strip, walk

RULE = ("Memory streams: with linear inequalities over the buffer's begin, position and end, every block copy moves at most the bytes left, and every position set lies between begin and end. "
        "Text parser: on every path, a lower bound of the characters left (raised by tests against the end or for a character other than NUL, lowered by advancing) covers each dereference and each advance. "
        "Files: for every function reading from a stream, the graph split by the stream's state (tested good / values read but untested / found failed) never uses or hands on a value that is "
        "untested or whose read failed, unless the read provably lies inside the file; every block read fits its destination; every range of the file's bytes copied lies inside the file; "
        "character arrays read from a file are never taken for NUL-terminated strings; first/last elements of strings built from the input are only used when there are any.")

GOOD = {"operator!": False, "fail": False, "bad": False, "good": True, "operator bool": True}
SKIP_FILES = ("include/common/cmdlib", "common/prtfile", "3rdparty", "lightpreview", "tests")  # cmdlib: the operators themselves (C01); portal files: C09
NOT_CONTENT = ("size", "empty", "resize", "reserve", "clear", "emplace_back", "push_back", "data", "max_size", "capacity", "length", "operator->", "begin_ref")


def head(k):
    """the variable a key starts with, and the rest (ids of inlined frames are written frame.id)"""
    m = re.match(r"^(\d+\.\d+)(?:\.(.*))?$", k)
    if m:
        return m.group(1), m.group(2) or ""
    h, _, t = k.partition(".")
    return h, t


def istream_t(t):
    return bool(re.search(r"istream|ifstream|imemstream|\bmemstream|stringstream|iostream", t or "")) and "ostream" not in (t or "")


# ---------------------------------------------------------------- streams over memory

PTRS = {"in": ("eback", "gptr", "egptr"), "out": ("pbase", "pptr", "epptr")}


class BufEngine(Engine):
    """The buffer pointers are pure accessors that only setg/setp/bump change."""

    def lin_call(self, e, st):
        m = short(e)
        if m in ("eback", "gptr", "egptr", "pbase", "pptr", "epptr") and not e.get("args"):
            t = "buf." + m
            self.types[t] = "?"
            return Lin({t: 1})
        return Engine.lin_call(self, e, st)

    def transfer(self, n, st):
        e = n.ast
        if e is not None and e.get("k") == "Call" and e.get("op") is None:
            m, a = short(e), list(e.get("args", ()))
            if m == "setg" and len(a) == 3:
                ls = [self.lin(x, st) for x in a]
                for t in PTRS["in"]:
                    self.kill(st, "buf." + t)
                for t, L in zip(PTRS["in"], ls):
                    if L is not None and not any(x.startswith("buf.") and x[4:] in PTRS["in"] for x in L.c):
                        self.assign(st, "buf." + t, L)
                self.invariant(st, "in")
                return
            if m == "setp" and len(a) == 2:
                ls = [self.lin(x, st) for x in a]
                for t in PTRS["out"]:
                    self.kill(st, "buf." + t)
                self.invariant(st, "out")
                if ls[0] is not None and not any(x.startswith("buf.") for x in ls[0].c):
                    self.assign(st, "buf.pbase", ls[0])
                    self.assign(st, "buf.pptr", ls[0])
                if ls[1] is not None and not any(x.startswith("buf.") for x in ls[1].c):
                    self.assign(st, "buf.epptr", ls[1])
                return
            if m in ("gbump", "pbump") and len(a) == 1:
                L = self.lin(a[0], st)
                p = "buf.gptr" if m == "gbump" else "buf.pptr"
                self.assign(st, p, Lin({p: 1}) + L if L is not None else None)
                return
        Engine.transfer(self, n, st)

    def invariant(self, st, d):
        b, p, q = ("buf." + x for x in PTRS[d])
        self.add(st, Lin({p: 1, b: -1}))
        self.add(st, Lin({q: 1, p: -1}))


def buffers(ck, P):
    recs = sorted({f["cls"] for f in P.fns.values() if f.get("cls") and f["n"].split("::")[-1] in ("xsgetn", "xsputn", "underflow", "overflow") and not f["n"].startswith("std::")})
    if not recs:
        raise model.AnalysisBroken("no stream buffer over memory found")
    for cls in recs:
        fs = [f for f in P.fns.values() if f.get("cls") == cls and f.get("body")]
        touches = any(short(x) in ("memcpy", "memmove", "copy", "copy_n") or short(x) == "gptr" for f in fs for x in model.fn_nodes(f) if x.get("k") == "Call")
        if not touches:
            continue  # counts only: has no bytes
        ck.count("stream_buffers")
        for f in fs:
            if f["n"].split("::")[-1] in ("setpptrs",):
                continue  # helper: judged where it is called
            judge_buffer(ck, P, f, cls)


def judge_buffer(ck, P, f, cls):
    ctor = f["n"].split("::")[-1] == cls.split("::")[-1]
    B = cfg.Builder(P, inline=lambda g, c, d: g.get("cls") == cls and g["n"].split("::")[-1] not in ("setpptrs", "xsgetn", "xsputn") and g is not f, max_depth=3).build(f)
    orig = {}

    def entry(E, st):
        for d in ("in", "out"):
            E.invariant(st, d)
            for t in PTRS[d]:
                o = "old." + t
                E.types[o] = "?"
                E.add(st, Lin({o: 1, "buf." + t: -1}))
                E.add(st, Lin({o: -1, "buf." + t: 1}))

    def eq(E, st, a, b):
        return a is not None and b is not None and E.entails(st, a - b) and E.entails(st, b - a)

    def ev(E, n, st):
        e = n.ast
        if n.kind != "ev" or e is None or e.get("k") != "Call" or e.get("op"):
            return
        m, a = short(e), list(e.get("args", ()))
        name = f["n"]
        if m in ("memcpy", "memmove", "memset") and len(a) == 3:
            ls = [E.lin(strip(x), st) for x in a]
            ok, tested = True, False
            for i, L in enumerate(ls[:2]):
                for d in ("in", "out"):
                    b, p, q = PTRS[d]
                    if L is not None and ("buf." + p in L.c or "buf." + b in L.c or "buf." + q in L.c):
                        tested = True
                        lo = L - Lin({"buf." + b: 1})
                        hi = Lin({"buf." + q: 1}) - L
                        ok = ok and E.entails(st, lo) and ls[2] is not None and E.entails(st, hi - ls[2]) and E.entails(st, ls[2])
            ck.ob("memory", "%s:copy" % name, ok and tested, n.where(), "the bytes copied (%s) must all lie between the stream's position and the end of its buffer" % ls[2])
        elif m in ("setg", "setpptrs") and len(a) == 3:
            d = "in" if m == "setg" else "out"
            ls = [E.lin(strip(x), st) for x in a]
            if m == "setpptrs":
                pass
            if None in ls:
                ck.ob("memory", "%s:position" % name, False, n.where(), "the new position is not a linear function of the old")
                return
            if ctor:
                par = {"v:%s" % B.frame0.map[p["id"]]: p for p in f["params"]}
                size = [t for t, p in par.items() if base_type(p["t"]) in ("unsigned long", "size_t", "std::size_t")]
                ok = eq(E, st, ls[0], ls[1]) and len(size) == 1 and eq(E, st, ls[2] - ls[0], Lin({size[0]: 1}))
                ck.ob("memory", "%s:extent" % name, ok, n.where(), "a new stream starts at the first of its bytes and ends with the last")
            else:
                b, p, q = PTRS[d]
                B0, B2 = Lin({"old." + b: 1}), Lin({"old." + q: 1})
                ok = eq(E, st, ls[0], B0) and eq(E, st, ls[2], B2) and E.entails(st, ls[1] - ls[0]) and E.entails(st, ls[2] - ls[1])
                ck.ob("memory", "%s:position" % name, ok, n.where(), "the position set (%s) must lie between the begin and the end of the buffer, which stay as they are" % (ls[1] - ls[0]))
        elif m in ("gbump", "pbump") and len(a) == 1:
            L = E.lin(strip(a[0]), st)
            b, p, q = PTRS["in" if m == "gbump" else "out"]
            A = Lin({"buf." + p: 1}) + L if L is not None else None
            ck.ob("memory", "%s:position" % name, A is not None and E.entails(st, A - Lin({"buf." + b: 1})) and E.entails(st, Lin({"buf." + q: 1}) - A), n.where(),
                  "the position must stay between the begin and the end of the buffer")
        elif m == "setp" and len(a) == 2 and ctor:
            ls = [E.lin(strip(x), st) for x in a]
            par = {"v:%s" % B.frame0.map[p["id"]]: p for p in f["params"]}
            size = [t for t, p in par.items() if base_type(p["t"]) in ("unsigned long", "size_t", "std::size_t")]
            ck.ob("memory", "%s:extent" % name, None not in ls and len(size) == 1 and eq(E, st, ls[1] - ls[0], Lin({size[0]: 1})), n.where(), "a new stream may write its own bytes only")
        elif m == "setp":
            ck.ob("memory", "%s:position" % name, False, n.where(), "the extent of the buffer must stay as it is")

    # the result of a block transfer is the number of bytes moved
    E = BufEngine(B, P, on_event=ev, entry=entry)
    E.run()
    if f["n"].split("::")[-1] in ("xsgetn", "xsputn"):
        transfers(ck, P, f, B)


def transfers(ck, P, f, B):
    """what a block transfer returns is what it moved, so that a short one is noticed"""
    d = "in" if f["n"].endswith("xsgetn") else "out"
    b, p, q = PTRS[d]

    def entry(E, st):
        for x in ("in", "out"):
            E.invariant(st, x)
        E.types["old." + p] = "?"
        E.add(st, Lin({"old." + p: 1, "buf." + p: -1}))
        E.add(st, Lin({"old." + p: -1, "buf." + p: 1}))

    class T(BufEngine):
        def transfer(self, n, st):
            e = n.ast
            if e is not None and e.get("k") == "Call" and short(e) in ("setg", "setpptrs") and len(e.get("args", ())) == 3:
                ls = [self.lin(strip(x), st) for x in e["args"]]
                for t in PTRS[d]:
                    if ls[1] is not None and t == p:
                        # keep what the new position is in terms of the old
                        N = Lin({"new": 1})
                        self.kill(st, "new")
                        M = Lin({}, 0)
                        for x, c in ls[1].c.items():
                            M = M + Lin({("old." + p if x == "buf." + p else x): c})
                        M = M.shift(ls[1].k)
                        self.types["new"] = "?"
                        self.add(st, N - M)
                        self.add(st, M - N)
                        self.add(st, Lin({"moved": 1}, -1))
                        self.add(st, Lin({"moved": -1}, 1))
                return
            BufEngine.transfer(self, n, st)

    def ev(E, n, st):
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Return" and e.get("e") is not None:
            L = E.lin(strip(e["e"]), st)
            mv = E.entails(st, Lin({"moved": 1}, -1))
            if mv:
                D = Lin({"new": 1, "old." + p: -1})
                ok = L is not None and E.entails(st, L - D) and E.entails(st, D - L)
            else:
                ok = L is not None and L.is_const() and L.k == 0
            ck.ob("memory", "%s:count" % f["n"], ok, n.where(), "the number of bytes returned must be the number moved (%s)" % L)
    T(B, P, on_event=ev, entry=entry).run()


# ---------------------------------------------------------------- the text parser

def text_class(P):
    for n, r in P.recs.items():
        fs = {x["n"]: x["t"] for x in r.get("fields", ())}
        if fs.get("pos", "").replace("const ", "") == "char *" and fs.get("end", "").replace("const ", "") == "char *":
            return n
    raise model.AnalysisBroken("no text parser with a position and an end found")


class Text:
    """state: (least number of characters known to be left, capped), plus variables holding a character ahead of the position"""
    CAP = 6

    def __init__(self, P, B, cls, peeks):
        self.P, self.B, self.cls, self.peeks = P, B, cls, peeks
        self.bad = []
        self.seen = set()
        self.vals = {}
        for n in B.nodes:
            e = n.ast
            if n.kind == "ev" and e is not None and e.get("k") == "Var" and e.get("init") is not None and "char" in e.get("t", "") and "*" not in e["t"]:
                self.vals[e["id"]] = True

    def pos(self, e):
        e = strip(e)
        return e is not None and e.get("k") == "Member" and e.get("f") == "pos" and e.get("cls") == self.cls and self.this(e)

    def this(self, e):
        b = e.get("base")
        return b is None or strip(b).get("k") == "This" or key(b) == "this"

    def end(self, e):
        e = strip(e)
        return e is not None and e.get("k") == "Member" and e.get("f") == "end" and e.get("cls") == self.cls

    def ahead(self, e):
        """k when e is the character k after the position (0-terminated for the guarded accessor): (k, guarded)"""
        e = strip(e)
        if e is None:
            return None
        if e.get("k") == "Cast":
            return self.ahead(e["e"])
        if e.get("k") == "Un" and e["op"] == "*":
            x = strip(e["e"])
            if self.pos(x):
                return 0, False
            if x.get("k") == "Bin" and x["op"] == "+" and self.pos(x["a"]):
                c = cfg.cval(x["b"])
                return (c, False) if isinstance(c, int) else None
        if e.get("k") == "Index" and self.pos(e["base"]):
            c = cfg.cval(e["idx"])
            return (c, False) if isinstance(c, int) else ("?", False)
        if e.get("k") == "Call" and e.get("fn") in self.peeks:
            a = [x for x in e.get("args", ())]
            c = cfg.cval(a[0]) if a else 0
            if a and c is None and strip(a[0]).get("k") in ("Default", "DefaultArg"):
                c = cfg.cval(strip(a[0]).get("e") or {})
                c = 0 if c is None else c
            return (c, True) if isinstance(c, int) else None
        return None

    def flag(self, n, what):
        self.bad.append((n, what))

    # ---- transfer
    def step(self, n, s, lab):
        L, vs = s
        e = n.ast
        if e is None:
            return s
        if n.kind == "br" and lab in (True, False):
            return self.assume(e, lab, s)
        if n.kind == "switch":
            a = self.charof(e, s)
            if a is not None and lab and lab[0] == "case" and lab[1] is not None and not (lab[1] <= 0 <= lab[2]):
                return (max(L, min(a + 1, self.CAP)), vs)
            return s
        if n.kind != "ev" or lab == "exc":
            return s
        if e.get("k") == "Var":
            vs = frozenset(v for v in vs if v[0] != e["id"])
            a = self.ahead(e["init"]) if e.get("init") is not None else None
            if a is not None and isinstance(a[0], int):
                vs = vs | {(e["id"], a[0])}
            return (L, vs)
        if e.get("k") == "Bin" and e["op"] == "=" and strip(e["a"]).get("k") == "Ref" and strip(e["a"]).get("id"):
            i = strip(e["a"])["id"]
            vs = frozenset(v for v in vs if v[0] != i)
            a = self.ahead(e["b"])
            if a is not None and isinstance(a[0], int):
                vs = vs | {(i, a[0])}
            return (L, vs)
        mv = self.moved(e)
        if mv is not None:
            if mv == "?":
                return (0, frozenset())
            return (max(L - mv, 0), frozenset((i, k - mv) for i, k in vs if k - mv >= 0))
        if e.get("k") == "Call" and e.get("fn") not in self.peeks and self.may_move(e):
            return (0, frozenset())
        return s

    def moved(self, e):
        if e.get("k") == "Un" and e["op"] in ("++", "p++") and self.pos(e["e"]):
            return 1
        if e.get("k") == "Bin" and e["op"] == "+=" and self.pos(e["a"]):
            c = cfg.cval(e["b"])
            return c if isinstance(c, int) and c >= 0 else "?"
        if e.get("k") == "Bin" and e["op"] in ("=", "-=") and self.pos(e["a"]):
            x = strip(e["b"])
            if e["op"] == "=" and x.get("k") == "Bin" and x["op"] == "+" and self.pos(x["a"]) and isinstance(cfg.cval(x["b"]), int):
                return cfg.cval(x["b"])
            return "?"
        if e.get("k") == "Un" and e["op"] in ("--", "p--") and self.pos(e["e"]):
            return "?"
        return None

    def may_move(self, e):
        """calls that may leave the position elsewhere: methods of the parser that are not const, and assignments through its state"""
        for g in self.P.callees(e) or ():
            if g.get("cls") == self.cls and e.get("m") == 1:
                return True
        return e.get("op") == "=" and any(x.get("k") == "Call" and short(x) == "state" for x in walk(e))

    def charof(self, e, s):
        a = self.ahead(e)
        if a is not None and isinstance(a[0], int):
            return a[0]
        x = strip(e)
        while x is not None and x.get("k") == "Cast":
            x = strip(x["e"])
        if x is not None and x.get("k") == "Ref":
            for i, k in s[1]:
                if i == x.get("id"):
                    return k
        return None

    def assume(self, e, pol, s):
        e = strip(e)
        L, vs = s
        while e.get("k") == "Cast":
            e = strip(e["e"])
        if e.get("k") == "Un" and e["op"] == "!":
            return self.assume(e["e"], not pol, s)
        up = lambda k: (max(L, min(k, self.CAP)), vs)
        if e.get("k") == "Call" and short(e) == "at_end":
            return s if pol else up(1)
        if e.get("k") == "Bin" and e["op"] in ("<", ">", "<=", ">=", "==", "!="):
            a, b, op = strip(e["a"]), strip(e["b"]), e["op"]
            if not pol:
                op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
            # position (plus k) against the end
            k = self.offs(a)
            if k is not None and self.end(b):
                return up(k + 1) if op in ("<", "!=") and k == 0 or op == "<" else up(k) if op in ("<=", "==") else s
            k = self.offs(b)
            if k is not None and self.end(a):
                return up(k + 1) if op in (">", "!=") and k == 0 or op == ">" else up(k) if op in (">=", "==") else s
            # characters left against a number
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                while x.get("k") == "Cast":
                    x = strip(x["e"])
                if x.get("k") == "Bin" and x["op"] == "-" and self.end(x["a"]) and self.pos(x["b"]):
                    c = cfg.cval(y)
                    if isinstance(c, int):
                        if o == ">":
                            return up(c + 1)
                        if o in (">=", "=="):
                            return up(c)
                        if o == "!=" and c == 0:
                            return up(1)
                    return s
            # a character: anything that is not NUL is before the end
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                k = self.charof(x, s)
                c = cfg.cval(y)
                if k is not None and isinstance(c, int):
                    nul = {"<": 0 < c, ">": 0 > c, "<=": 0 <= c, ">=": 0 >= c, "==": c == 0, "!=": c != 0}[o]
                    return s if nul else up(k + 1)
            return s
        k = self.charof(e, s)
        if k is not None and pol:
            return up(k + 1)
        return s

    def offs(self, e):
        e = strip(e)
        if self.pos(e):
            return 0
        if e.get("k") == "Bin" and e["op"] == "+" and self.pos(e["a"]) and isinstance(cfg.cval(e["b"]), int):
            return cfg.cval(e["b"])
        return None


def deref_of(T, e):
    """the dereferences of the position that this expression itself performs: (k or '?', expression)"""
    a = T.ahead(e)
    if a is not None and not a[1] and e.get("k") in ("Un", "Index"):
        return a[0]
    if e.get("k") == "Un" and e["op"] == "*":
        x = strip(e["e"])
        if x.get("k") == "Un" and x["op"] in ("p++", "++") and T.pos(x["e"]):
            return 0 if x["op"] == "p++" else 1
        if any(T.pos(y) for y in walk(x)):
            return "?"
    if e.get("k") == "Index" and any(T.pos(y) for y in walk(e["base"])):
        return "?"
    return None


def guarded_accessors(ck, P, cls):
    """const methods that hand out the character ahead of the position, or NUL when there is none"""
    out = set()
    for f in P.fns.values():
        if f.get("cls") != cls or not f.get("body") or "char" != base_type(f.get("ret", "")) or any(isinstance(x, dict) and x.get("k") in ("Un",) and x["op"] in ("++", "p++", "--", "p--") for x in model.fn_nodes(f)):
            continue
        import sym
        S = sym.summary(P, f)
        if set(S.iters) != {"F"}:
            continue
        ok, nul = True, False
        for atoms, effs, how in S.iters["F"]:
            r = [x[1] for x in effs if x[0] == "return"]
            if r == ["0"]:
                nul = True
                continue
            arg = "P0" if f["params"] else "0"
            if r not in (["this.pos[%s]" % arg],):
                ok = False
                continue
            g1 = ("1*P0 + -1*index(this.end in this.pos) < 0", True)
            ok = ok and (g1 in atoms or any(p and re.match(r"^1\*P0 \+ -1\*.*this\.end.*this\.pos.* < 0$", a) for a, p in atoms))
        if f["params"] and base_type(f["params"][0]["t"]) not in ("unsigned long", "unsigned int", "size_t", "std::size_t"):
            ok = False
        ck.ob("text", "%s:guarded" % f["n"], ok and nul, model.loc(f), "the character ahead is handed out only when it lies before the end of the text, NUL otherwise")
        if ok and nul:
            out.add(f["key"])
    return out


def text(ck, P):
    cls = text_class(P)
    peeks = guarded_accessors(ck, P, cls)
    nd = 0
    for f in sorted(P.fns.values(), key=lambda f: (f["f"], f["l"])):
        if f.get("cls") != cls or not f.get("body") or f["key"] in peeks:
            continue
        if not any(x.get("k") == "Member" and x.get("f") == "pos" and x.get("cls") == cls for x in model.fn_nodes(f)):
            continue
        small = lambda g, c, d: g.get("cls") == cls and g["n"] != f["n"] and g["key"] not in peeks and g["n"].split("::")[-1] not in ("state", "at_end", "parse_token", "push_state", "pop_state")
        B = cfg.Builder(P, inline=small, max_depth=3).build(f)
        T = Text(P, B, cls, peeks)
        F = flow.Flow(B, (0, frozenset()), T.step)
        ck.count("states_explored", F.visited)
        for n in B.nodes:
            if n.kind not in ("ev",) or n.ast is None or n.i not in F.at:
                continue
            e = n.ast
            k = deref_of(T, e)
            if k is not None:
                # `*pos++`: the advance is an event of its own before the dereference
                x = strip(e["e"]) if e.get("k") == "Un" else None
                adv = x is not None and x.get("k") == "Un" and x["op"] in ("p++", "++")
                nd += 1
                if adv:
                    continue
                ok = isinstance(k, int) and k >= 0 and all(s[0] > k for s in F.at[n.i])
                ck.ob("text", "%s:read:%s" % (f["n"], model.path(e)), ok, n.where(), "a character is read that may lie past the end of the text")
            mv = T.moved(e)
            if mv is not None and mv != "?":
                ok = all(s[0] >= mv for s in F.at[n.i])
                nd += 1
                ck.ob("text", "%s:advance" % f["n"], ok, n.where(), "the position may be moved past the end of the text")
    if nd < 6:
        raise model.AnalysisBroken("only %d reads of text found" % nd)
    # where a parser starts and ends
    for f in P.fns.values():
        if f.get("cls") == cls and f["n"].split("::")[-1] == cls.split("::")[-1]:
            for x in model.fn_nodes(f):
                if x.get("k") == "Call" and short(x) in ("front", "back") and operands(x):
                    ck.ob("text", "%s:start" % f["n"], False, model.loc(f), "the start of a text that may be empty is not the address of its first character")
            ck.ob("text", "%s:constructed" % f["n"], True, model.loc(f), "starts from a pointer and a length")


# ---------------------------------------------------------------- values read from files

class FileEngine(Engine):
    """keeps, for each stream over a block of memory, where it is and how long the block is"""
    reads = None

    def transfer(self, n, st):
        e = n.ast
        R = self.reads
        after = None
        if R is not None and e is not None and n.kind == "ev":
            if e.get("k") == "Var" and e.get("id") == R.ik and istream_t(e.get("t")) and not e["t"].endswith("&"):
                i = strip(e.get("init") or {})
                while i is not None and i.get("k") in ("Construct", "Cast") and i.get("args") and "memstream" not in str(i.get("n", "") or i.get("t", "")) and len(i["args"]) == 1:
                    i = strip(i["args"][0])
                a = i.get("args", ()) if i.get("k") == "Construct" else ()
                L = self.lin(strip(a[1]), st) if len(a) >= 2 and "memstream" in i.get("t", "") else None
                after = [("len:" + R.ik, L), ("at:" + R.ik, Lin() if L is not None else None)]
            elif e.get("k") == "Call" and short(e) == "seekg" and operands(e) and R.chain(operands(e)[0]):
                a = e.get("args", ())
                x = strip(a[0])
                while x is not None and x.get("k") in ("Construct", "Cast") and (x.get("args") or x.get("e")):
                    y = x["args"][0] if x.get("args") else x["e"]
                    if x.get("k") == "Cast" and self.lin(x, st) is not None:
                        break
                    x = strip(y)
                after = [("at:" + R.ik, self.lin(x, st) if len(a) == 1 else None)]
            elif R.isread(e):
                c = R.amount(self, e, st)
                after = [("at:" + R.ik, Lin({"at:" + R.ik: 1}) + c if c is not None else None)]
        Engine.transfer(self, n, st)
        for p, L in after or ():
            self.types[p] = "?"
            self.assign(st, p, L)


WIDTH = {"unsigned char": 1, "signed char": 1, "char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4, "double": 8, "long": 8, "unsigned long": 8, "std::byte": 1, "bool": 1}


def width(P, t, d=0):
    """bytes of an element of memory, for plain types"""
    t = base_type(t)
    if t in WIDTH:
        return WIDTH[t]
    m = re.match(r"^qvec<(.*), (\d+)>$", t)
    if m:
        w = width(P, m.group(1), d + 1)
        return w * int(m.group(2)) if w else None
    m = re.match(r"^std::array<(.*), (\d+)>$", t)
    if m:
        w = width(P, m.group(1), d + 1)
        return w * int(m.group(2)) if w else None
    return None


class Reads:
    """typestate of one input stream in one function"""

    def __init__(self, P, B, ik, drains, param):
        self.P, self.B, self.ik, self.drains, self.param = P, B, ik, drains, param
        self.alias = {}
        self.defs = flow.defs(getattr(B, "B", B))
        self.proven = set()
        self.refs = set()
        self.title = {str(n.ast["id"]): n.ast["n"] for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") in ("Var", "RVar") and n.ast.get("n")}
        self.title.update({str(x["id"]): x["n"] for n in B.nodes if n.ast is not None for x in walk(n.ast) if x.get("k") == "Ref" and x.get("id") and x.get("n")})
        for n in B.nodes:
            e = n.ast
            if n.kind == "ev" and e is not None and e.get("k") == "Var" and e.get("init") is not None and (e.get("t", "").endswith("&") or e.get("bind")):
                k = self.tkey(e["init"])
                if k and k != str(e["id"]):
                    self.alias[str(e["id"])] = k
                    self.refs.add(str(e["id"]))
            elif n.kind == "ev" and e is not None and e.get("k") == "RVar":
                k = self.tkey(e["range"])
                if k:
                    self.alias[str(e["id"])] = k
        self.reads_at = [n for n in B.nodes if n.kind == "ev" and n.ast is not None and self.isread(n.ast)]

    # ---- names
    def canon(self, k):
        for _ in range(12):
            if k is None:
                return None
            h, t = head(k)
            if h in self.alias:
                k = self.alias[h] + ("." + t if t else "")
            else:
                return k
        return k

    def tkey(self, e):
        """canonical name of the object that holds e (elements are named by their container)"""
        e = strip(e)
        while e is not None:
            k = e.get("k")
            if k == "Cast":
                e = strip(e["e"])
            elif k == "Index":
                e = strip(e["base"])
            elif k == "Un" and e["op"] in ("*", "&"):
                e = strip(e["e"])
            elif k == "Member" and e.get("base") is not None and key(e) is None:
                b = self.tkey(e["base"])
                return b + "." + e["f"] if b else None
            elif k == "Call" and (e.get("op") in ("[]", "*", "->") or short(e) in ("at", "front", "back", "data", "begin", "value", "emplace_back", "get", "move", "forward", "first")) and operands(e):
                e = strip(operands(e)[0])
            elif k == "Construct" and len(e.get("args", ())) == 1 and e.get("copy"):
                e = strip(e["args"][0])
            else:
                break
        return self.canon(key(e)) if e is not None else None

    # ---- the stream
    def chain(self, e):
        e = strip(e)
        while e is not None and (e.get("k") == "Cast" or e.get("k") == "Call" and (e.get("op") in (">>", ">=") or short(e) in ("read", "get", "getline", "ignore", "seekg", "operator<<") and not e.get("op")) and operands(e)):
            e = strip(e["e"] if e.get("k") == "Cast" else operands(e)[0])
        return e is not None and self.canon(key(e)) == self.ik

    def isread(self, e):
        if e is None or e.get("k") != "Call":
            return False
        o = operands(e)
        if not o:
            return False
        if short(e) == "stream_read":
            return any(self.chain(x) for x in e.get("args", ()))
        if e.get("op") == ">>":
            return self.chain(o[0]) and len(o) == 2 and "basic_istream" not in o[1].get("t", "") and "endian" not in str(model.path(o[1])) and "(" not in o[1].get("t", "")
        return self.chain(o[0]) and (e.get("op") == ">=" or not e.get("op") and short(e) in ("get", "read", "getline"))

    def targets(self, e):
        o = operands(e)
        if short(e) == "getline" or any("nlohmann" in x.get("t", "") for x in o[1:2]):
            return  # a line that is not there is empty; JSON that is not there is an exception
        if short(e) == "stream_read":
            c = base_type((e.get("obj") or {}).get("t", "")).rstrip("*").strip()
            if c in self.drains:
                return
            k = self.tkey(e["obj"]) if e.get("obj") is not None else None
            if k:
                yield k
            return
        for a in o[1:2]:
            x = strip(a)
            while x is not None and x.get("k") in ("Construct", "Cast", "Mat") and (x.get("args") or x.get("e")):
                x = strip(x["args"][0] if x.get("args") else x["e"])
            if x is not None and x.get("k") == "Call" and short(x) in ("tie", "forward_as_tuple"):
                for y in x.get("args", ()):
                    k = self.tkey(y)
                    if k:
                        yield k
                continue
            if base_type(a.get("t", "")) in self.drains:
                continue
            k = self.tkey(a)
            if k and not str(a.get("t", "")).startswith("padding"):
                yield k

    def amount(self, E, e, st):
        """bytes this read takes, as a linear expression"""
        a = list(e.get("args", ()))
        if short(e) == "read" and not e.get("op") and len(a) == 2:
            return E.lin(strip(a[1]), st)
        if e.get("op") == ">=" and len(a) == 2:
            w = width(self.P, a[1].get("t", ""))
            return Lin({}, w) if w else None
        return None

    def polarity(self, e, d=0):
        e = strip(e)
        if e is None or d > 8:
            return None
        if e.get("k") == "Cast":
            return self.polarity(e["e"], d + 1)
        if e.get("k") == "Call" and operands(e) and self.chain(operands(e)[0]) and short(e) in GOOD:
            return GOOD[short(e)]
        if e.get("k") == "Call" and operands(e) and self.chain(operands(e)[0]) and e.get("op") == "!":
            return False
        if e.get("k") == "Un" and e["op"] == "!":
            p = self.polarity(e["e"], d + 1)
            return None if p is None else not p
        if e.get("k") == "Ref" and e.get("id") in self.defs and self.defs[e["id"]] is not None:
            return self.polarity(self.defs[e["id"]], d + 1)
        return None

    # ---- automaton
    def step(self, n, s, lab):
        st, pend = s
        e = n.ast
        if e is None:
            return s
        if n.kind == "br" and lab in (True, False):
            p = self.polarity(e)
            if p is not None:
                if p == lab:
                    return None if st == "failed" else ("ok", frozenset())
                return None if st == "ok" and not self.maybe_unopened else ("failed", pend)
            return s
        if n.kind != "ev" or lab == "exc":
            return s
        k = e.get("k")
        if k == "Call" and self.isread(e):
            if n.i in self.proven and st == "ok":
                return s
            return ("failed" if st == "failed" else "unchecked", pend | frozenset(self.targets(e)))
        if k == "Call" and not e.get("op") and operands(e) and e.get("obj") is not None and self.chain(e["obj"]):
            if short(e) == "setstate":
                return ("failed", pend)
            if short(e) == "clear":
                return ("ok", frozenset()) if not pend else ("failed", pend)
        if k == "Call" and short(e) == "seekg" and operands(e) and self.chain(operands(e)[0]):
            return s if st != "ok" or n.i in self.proven else ("unchecked", pend)
        if k == "Call" and e.get("op") == "=" and operands(e) and self.canon(key(operands(e)[0])) == self.ik:
            return ("ok", frozenset())
        if k == "Call" and pend and short(e) in ("push_back", "emplace_back", "insert") and e.get("obj") is not None:
            t = self.tkey(e["obj"])
            if t is not None and any(self.find(a, pend, set()) for a in e.get("args", ())):
                return (st, pend | {t})  # handed on: the list holds it now
        if k == "Var":
            i = str(e["id"])
            if i == self.ik and self.alias.get(i) is None:
                return ("ok", frozenset())
            if i not in self.alias:
                return (st, frozenset(p for p in pend if p != i and not p.startswith(i + ".")))
        if k == "Bin" and e["op"] == "=":
            t = self.tkey(e["a"])
            if t is not None:
                return (st, frozenset(p for p in pend if p != t))
        return s

    maybe_unopened = True

    def uses(self, n, pend):
        e = n.ast
        if e is None or n.kind not in ("ev", "br", "switch") or not pend:
            return []
        k = e.get("k")
        if n.kind == "ev" and (k in ("ScopeEnd", "Ref", "Member", "Index", "Cast", "RVar", "This") or k == "Un" and e["op"] in ("*", "&") or k == "Call" and (
                e.get("op") in ("[]", "*", "->") or short(e) in ("at", "front", "back", "data", "begin", "end", "value", "tie", "get", "move", "forward") or short(e) in NOT_CONTENT)):
            return self.counted(e, pend) if k == "Call" and short(e) in ("resize", "reserve") else []
        if n.kind == "ev" and self.isread(e):
            return self.counted(e, pend)
        if n.kind == "ev" and k == "Var" and (e.get("t", "").endswith("&") or e.get("bind")):
            return []
        if self.polarity(e) is not None:
            return []
        skip = set()
        for x in walk(e):
            if x.get("k") == "Call" and (self.isread(x)):
                skip |= {id(y) for y in walk(x)}
            if x.get("k") == "Call" and short(x) in NOT_CONTENT and operands(x) and e is not x:
                skip |= {id(y) for y in walk(operands(x)[0])}
        if k == "Bin" and e["op"] == "=":
            skip |= {id(y) for y in walk(e["a"])} if self.tkey(e["a"]) else set()
        if k == "Call" and e.get("op") == "=" and len(e.get("args", ())) == 2:
            skip |= {id(y) for y in walk(e["args"][0])}
        return self.find(e, pend, skip)

    def find(self, e, pend, skip):
        out = []
        for x in walk(e):
            if id(x) in skip or x.get("k") not in ("Ref", "Member"):
                continue
            k = self.canon(key(x)) if key(x) else None
            if k is None or k == "this" or k == self.ik:
                continue
            for p in pend:
                if k == p or k.startswith(p + ".") or p.startswith(k + ".") and x.get("k") == "Ref":
                    out.append(model.path(x))
        return out

    def counted(self, e, pend):
        """how many bytes are read, or elements made, must not come from an untested value"""
        a = list(e.get("args", ()))
        if short(e) in ("resize", "reserve"):
            return [u for x in a for u in self.find(x, pend, set())]
        if short(e) == "read" and len(a) == 2:
            skip = {id(y) for x in walk(a[1]) if x.get("k") == "Call" and short(x) in NOT_CONTENT and operands(x) for y in walk(operands(x)[0])}
            return self.find(a[1], pend, skip)
        if short(e) == "stream_read":
            return [u for x in a if not self.chain(x) for u in self.find(x, pend, set())]
        return []

    def human(self, p):
        h, t = head(p)
        return ".".join(x for x in (self.title.get(h, h), t) if x)

    def nonlocal_(self, p):
        """what is left behind in p outlives the function"""
        return head(p)[0] not in self.locals


def stream_keys(P, B):
    """the input streams used in this graph: canonical key -> is it handed in by the caller"""
    probe = Reads(P, B, "?", set(), False)
    out = {}
    par = {str(B.frame0.map[p["id"]]) for p in B.fn["params"]}
    for n in B.nodes:
        e = n.ast
        if n.kind != "ev" or e is None or e.get("k") != "Call" or not operands(e):
            continue
        cand = [operands(e)[0]] if (e.get("op") in (">>", ">=") or short(e) in ("read", "get", "getline")) else list(e.get("args", ())) if short(e) == "stream_read" else []
        for o in cand:
            x = strip(o)
            while x is not None and (x.get("k") == "Cast" or x.get("k") == "Call" and (x.get("op") in (">>", ">=") or short(x) in ("read", "get", "getline", "ignore", "seekg")) and operands(x)):
                x = strip(x["e"] if x.get("k") == "Cast" else operands(x)[0])
            if x is None or not istream_t(x.get("t", "")) and not istream_t(o.get("t", "")):
                continue
            k = probe.canon(key(x))
            if k is not None and "cin" not in k:
                out[k] = k in par
    return out


def readers(P):
    out = []
    for f in P.fns.values():
        if not f.get("body") or f["f"].startswith(SKIP_FILES) or "/3rdparty" in f["f"] or f.get("lambda"):
            continue
        for e in model.fn_nodes(f):
            if e.get("k") == "Call" and operands(e) and (e.get("op") in (">>", ">=") or short(e) in ("read", "getline", "get", "stream_read")):
                o = operands(e)
                if istream_t(o[0].get("t", "")) or short(e) == "stream_read" and any(istream_t(x.get("t", "")) for x in o):
                    out.append(f)
                    break
    return sorted(out, key=lambda f: (f["f"], f["l"], f["key"]))


def shared_helpers(P, fs):
    """functions reading from a member stream that are called from the same class only: judged as part of their callers"""
    keys = {f["key"]: f for f in fs if f.get("cls")}
    callers = {}
    for g in P.fns.values():
        if g.get("body"):
            for e in model.fn_nodes(g):
                if e.get("k") in ("Call", "Construct") and e.get("fn"):
                    for t in [x["key"] for x in P.callees(e) or ()] if e["k"] == "Call" else [e["fn"]]:
                        if t in keys:
                            callers.setdefault(t, []).append(g)
    return {k for k, cs in callers.items() if all(g.get("cls") == keys[k]["cls"] and g["f"] == keys[k]["f"] and g is not keys[k] for g in cs)}


def build(P, f, helpers=()):
    own = f["f"]

    def inl(g, c, d):
        n = g["n"].split("::")[-1]
        if g["n"] == "logging::assert_":
            return True
        if n in ("stream_read", "stream_write") or n.startswith("operator"):
            return False
        return g["f"] == own and g is not f and (any(istream_t(p.get("t", "")) for p in g["params"]) or g["key"] in helpers)
    return cfg.Builder(P, inline=inl, max_depth=3).build(f)


def states(P, f, drains, helpers=()):
    B = flow.split(build(P, f, helpers))
    for ik, param in sorted(stream_keys(P, B).items()):
        R = Reads(P, B, ik, drains, param)
        R.locals = {str(n.ast["id"]) for n in B.nodes if n.kind == "ev" and n.ast is not None and n.ast.get("k") in ("Var", "RVar") and not n.ast.get("static") and str(n.ast.get("id")) not in R.alias}
        yield B, R


def drained(P, fs):
    """classes whose reader takes everything up to the end of the stream, testing each part as it goes"""
    out = set()
    for f in fs:
        if f["n"].split("::")[-1] != "stream_read" or not f.get("cls"):
            continue
        for B, R in states(P, f, set()):
            if not R.param:
                continue
            F = flow.Flow(B, ("ok", frozenset()), R.step)
            ends = [s for x in B.exits for s in F.states(x)]
            if ends and all(s[0] == "failed" for s in ends) and all(not R.nonlocal_(p) for s in ends for p in s[1]):
                out.add(f["cls"])
    return out


def files(ck, P):
    fs = readers(P)
    if len(fs) < 40:
        raise model.AnalysisBroken("only %d functions that read files found" % len(fs))
    drains = drained(P, fs)
    helpers = shared_helpers(P, fs)
    ck.count("reading_functions", len(fs))
    for f in fs:
        for B, R in states(P, f, drains, helpers):
            R.param = R.param or f["key"] in helpers
            ck.count("streams")
            prove(ck, P, f, B, R)
            F = flow.Flow(B, ("ok", frozenset()), R.step)
            ck.count("states_explored", F.visited)
            found = {}
            for n in B.nodes:
                if n.i not in F.at:
                    continue
                for s in F.at[n.i]:
                    st, pend = s
                    us = R.uses(n, pend)
                    for u in us:
                        found.setdefault(u, (n, st))
                    if n.kind == "ev" and n.ast is not None and n.ast.get("k") == "Return" and st == "unchecked" and not R.param:
                        for p in pend:
                            if R.nonlocal_(p):
                                found.setdefault("left in " + R.human(p), (n, st))
            if not R.param:
                for st, pend in (s for x in B.exits for s in F.states(x)):
                    if st == "unchecked":
                        for p in pend:
                            if R.nonlocal_(p):
                                found.setdefault("left in " + R.human(p), (B.nodes[R.reads_at[-1].i] if R.reads_at else B.entry, st))
            for u, (n, st) in sorted(found.items()):
                ck.ob("tested", "%s:%s" % (f["n"], u), False, n.where(), "%s is used although the read that produced it %s" % (u, "failed" if st == "failed" else "may have failed and was not tested"))
            ck.ob("tested", "%s:%s" % (f["n"], len(R.reads_at)), True, model.loc(f), "%d reads, every value used after they were tested" % len(R.reads_at)) if not found else None


def prove(ck, P, f, B, R):
    """reads of a block of memory that provably lie inside it; and room for what is read"""

    def ev(E, n, st):
        e = n.ast
        if n.kind != "ev" or e.get("k") != "Call":
            return
        if R.isread(e) and not e.get("op") and short(e) == "read" and len(e.get("args", ())) == 2:
            c = R.amount(E, e, st)
            x = strip(e["args"][0])
            while x is not None and x.get("k") == "Cast":
                x = strip(x["e"])
            room, what = None, model.path(x)
            if x is not None and x.get("k") == "Call" and short(x) == "data" and operands(x):
                o = operands(x)[0]
                t = base_type(o.get("t", ""))
                m = re.match(r"^std::(?:vector|basic_string|span)<(.*?)(?:, std::.*)?>$", t)
                a = re.match(r"^std::array<(.*), (\d+)>$", t)
                if a:
                    w = width(P, t)
                    room = Lin({}, w) if w else None
                elif m or t in ("std::string",):
                    w = width(P, m.group(1)) or 1 if m else 1
                    b = E.term(o, st)
                    if w and b:
                        E.types["size(%s)" % b] = "size"
                        room = Lin({"size(%s)" % b: w})
            elif x is not None and x.get("k") == "Un" and x["op"] == "&":
                w = width(P, x["e"].get("t", ""))
                room = Lin({}, w) if w else None
            ck.ob("room", "%s:%s" % (f["n"], what), c is not None and room is not None and E.entails(st, room - c), n.where(), "as many bytes are read (%s) as there is room for (%s)" % (c, room))
        if R.isread(e) or short(e) == "seekg" and operands(e) and R.chain(operands(e)[0]):
            at, ln = Lin({"at:" + R.ik: 1}), Lin({"len:" + R.ik: 1})
            if short(e) == "seekg":
                a = e.get("args", ())
                x = strip(a[0])
                for _ in range(6):
                    L = E.lin(x, st)
                    if len(a) == 1 and L is not None and E.entails(st, L) and E.entails(st, ln - L):
                        R.proven.add(n.i)
                        break
                    if x.get("k") not in ("Construct", "Cast"):
                        break
                    x = strip(x["args"][0] if x.get("args") else x.get("e"))
                return
            c = R.amount(E, e, st)
            if c is not None and E.entails(st, at) and E.entails(st, ln - at - c) and E.entails(st, c):
                R.proven.add(n.i)
    E = FileEngine(B, P, on_event=ev)
    E.reads = R
    E.run()


CHARS = r"^std::array<(signed |unsigned )?char, (\d+)>$"


def extents(ck, P):
    """a stream over memory is given memory of at least its length"""
    for f in sorted(P.fns.values(), key=lambda f: (f["f"], f["l"], f["key"])):
        if not f.get("body") or f["f"].startswith(("lightpreview", "tests", "include/common/cmdlib", "common/cmdlib")):
            continue
        made = lambda e: e.get("k") == "Construct" and re.search(r"memstream$", base_type(e.get("t", ""))) and len(e.get("args", ())) >= 2
        if not any(made(e) for e in model.fn_nodes(f)):
            continue
        done = set()

        def ev(E, n, st):
            for e in walk(n.ast):
                if not made(e) or (n.i, id(e)) in done:
                    continue
                done.add((n.i, id(e)))
                p, c = strip(e["args"][0]), E.lin(strip(e["args"][1]), st)
                while p is not None and p.get("k") == "Cast" and "data(" not in str(p):
                    p = strip(p["e"])
                room = None
                if cfg.cval(p) == 0 or p.get("k") in ("Null", "Zero"):
                    room = Lin()
                elif p.get("k") == "Call" and short(p) == "data" and operands(p):
                    o = operands(p)[0]
                    m = re.match(r"^std::(?:vector|basic_string|span)<(.*?)(?:, std::.*)?>$", base_type(o.get("t", "")))
                    b = E.term(o, st)
                    if b:
                        E.types["size(%s)" % b] = "size"
                        room = Lin({"size(%s)" % b: width(P, m.group(1)) or 1 if m else 1})
                if room is None:
                    return
                ck.ob("room", "%s:stream" % f["n"], c is not None and E.entails(st, room - c), n.where(), "the stream is made over %s bytes, of which there are %s" % (c, room))
        Engine(cfg.Builder(P, inline=lambda g, c, d: False, max_depth=1).build(f), P, on_event=ev).run()


def names(ck, P):
    """character arrays of file records have no terminator of their own: used with their length, or compared as bytes"""
    filed = set()
    for f in P.fns.values():
        if f["n"].split("::")[-1] == "stream_read" and f.get("cls"):
            filed.add(f["cls"])
    # records made from file records keep what they hold
    arrays = {}
    for n, r in P.recs.items():
        for x in r.get("fields", ()):
            if re.match(CHARS, base_type(x["t"])):
                arrays[(n, x["n"])] = n in filed
    held = {x for (n, x), y in arrays.items() if y}
    for f in sorted(P.fns.values(), key=lambda f: (f["f"], f["l"], f["key"])):
        if not f.get("body") or f["f"].startswith(("lightpreview", "tests")):
            continue
        done = set()
        for e in model.fn_nodes(f):
            if e.get("k") not in ("Call", "Construct", "Return", "Var", "Bin", "Cond"):
                continue
            args = list(e.get("args", ())) if e.get("k") in ("Call", "Construct") else [e.get("e")] if e["k"] == "Return" else [e.get("init")] if e["k"] == "Var" else [e.get("b")] if e["k"] == "Bin" and e["op"] == "=" else [e.get("a"), e.get("b")] if e["k"] == "Cond" else []
            for i, a in enumerate(args):
                x = strip(a) if a is not None else None
                while x is not None and x.get("k") == "Cast":
                    x = strip(x["e"])
                if x is None or x.get("k") != "Call" or short(x) not in ("data", "begin", "cbegin") or not operands(x):
                    continue
                o = strip(operands(x)[0])
                while o is not None and o.get("k") == "Cast":
                    o = strip(o["e"])
                if o is None or o.get("k") != "Member" or not re.match(CHARS, base_type(o.get("t", ""))) or o["f"] not in held or (o.get("cls"), o["f"]) not in arrays:
                    continue
                sized = sum(1 for y in args if y is not None and base_type(y.get("t", "")) in INT_RANGE) > 0 or sum(1 for y in args if y is not None and y is not a and re.search(r"char \*|iterator", y.get("t", ""))) > 0 and short(x) != "data"
                if e["k"] == "Call" and (short(e).startswith("copy") or short(e) == "snprintf" or i == 0 and short(e) in ("memcpy", "strncpy")):
                    sized = True  # written into, or a given number of elements
                if e["k"] == "Call" and short(e) in ("find", "begin", "end"):
                    sized = True
                isstr = e["k"] in ("Construct", "Return", "Var", "Bin", "Cond") or "char *" in a.get("t", "")
                if not isstr:
                    continue
                k = "%s:%s.%s" % (f["n"], o.get("cls"), o["f"])
                if (k, sized) in done:
                    continue
                done.add((k, sized))
                ck.ob("names", k, sized, "%s:%s (%s)" % (f["f"], e.get("l") or x.get("l") or f["l"], f["n"]),
                      "used with its length" if sized else "this array of characters comes from a file and need not hold a NUL, but is taken for a string that ends at one")


def ranges(ck, P):
    """blocks copied out of a file's bytes lie inside them"""
    found = 0
    for f in readers(P):
        if not any(x.get("k") == "Construct" and "vector<unsigned char" in x.get("t", "") and len(x.get("args", ())) >= 2 and "iterator" in x["args"][0].get("t", "") for x in model.fn_nodes(f)):
            continue

        def ev(E, n, st):
            nonlocal found
            e = n.ast
            if e.get("k") == "Construct" and "vector<unsigned char" in e.get("t", "") and len(e.get("args", ())) >= 2 and "iterator" in e["args"][0].get("t", ""):
                a, b = E.lin(strip(e["args"][0]), st), E.lin(strip(e["args"][1]), st)
                found += 1
                ok = False
                if a is not None and b is not None:
                    ds = [t for t in a.c if t.startswith("data(")]
                    if len(ds) == 1:
                        o1, o2 = a - Lin({ds[0]: 1}), b - Lin({ds[0]: 1})
                        sz = Lin({"size(" + ds[0][5:]: 1})
                        E.types["size(" + ds[0][5:]] = "size"
                        for t in {t for L in (o1, o2) for t in L.c if t in (E.ucasts or {})}:
                            C = E.ucasts[t][0]
                            if E.entails(st, C) and E.entails(st, sz - C):
                                # a count no larger than the file keeps its value in the other type
                                E.add(st, Lin({t: 1}) - C)
                                E.add(st, C - Lin({t: 1}))
                        ok = E.entails(st, o1) and E.entails(st, o2 - o1) and E.entails(st, sz - o2)
                ck.ob("range", "%s:%s" % (f["n"], model.path(e)[:60]), ok, n.where(), "the bytes copied (from %s up to %s) must lie inside the file" % (a, b))
        B = build(P, f)
        Engine(B, P, on_event=ev).run()
    if not found:
        raise model.AnalysisBroken("no block of a file's bytes is copied")


def strings(ck, P):
    """first and last characters of what was parsed"""
    for f in sorted(P.fns.values(), key=lambda f: (f["f"], f["l"])):
        if not f.get("body") or f.get("lambda") or f["f"].startswith(("lightpreview", "tests")):
            continue
        ns = list(model.fn_nodes(f))
        if not any(x.get("k") == "Member" and x.get("f") == "token" for x in ns):
            continue
        isstr = lambda x: base_type(x.get("t", "")).startswith(("std::basic_string", "std::string"))
        if not any(x.get("k") == "Call" and x.get("obj") is not None and isstr(x["obj"]) and short(x) in ("front", "back", "erase", "pop_back") for x in ns):
            continue

        def ev(E, n, st):
            e = n.ast
            if n.kind != "ev" or e.get("k") != "Call" or e.get("obj") is None or not isstr(e["obj"]):
                return
            if short(e) in ("front", "back", "pop_back") or short(e) == "erase" and e.get("args") and "iterator" in strip(e["args"][0]).get("t", "iterator") and len(e["args"]) == 1:
                lim, d = bounds.base_limit(E, e["obj"], st)
                ok = lim is not None and E.entails(st, lim.shift(-1))
                ck.ob("strings", "%s:%s" % (f["n"], model.path(e)[:50]), ok, n.where(), "the string may be empty here")
        Engine(cfg.Builder(P, inline=lambda g, c, d: False, max_depth=1).build(f), P, on_event=ev).run()


def run(ck):
    P = ck.load("common", "vis", "light", "qbsp", "bsputil", "bspinfo", "maputil")
    buffers(ck, P)
    text(ck, P)
    files(ck, P)
    extents(ck, P)
    names(ck, P)
    ranges(ck, P)
    strings(ck, P)
    ck.assumptions.append("The byte-order operators transfer exactly the bytes of their operand (C01); portal files and vis state files are judged by C09 and C08.")
    ck.assumptions.append("Standard streams over files keep to the file; a read that fails sets the state the next test sees.")
    ck.floor("memory", 8)
    ck.floor("text", 10)
    ck.floor("tested", 60)
    ck.floor("room", 25)
    ck.floor("range", 1)
    ck.floor("names", 5)
    ck.floor("strings", 8)
