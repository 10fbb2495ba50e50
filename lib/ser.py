"""Serialisation traces: what a function reads from / writes to a binary stream,
as an automaton over wire tokens (kind, width) with the member each token belongs to."""
import re
import cfg, model
from facts import base_type

INTW = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
        "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}
FLTW = {"float": 4, "double": 8, "long double": 16}


def bt(t):
    t = t or ""
    t = t.replace("const ", "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


class Ser:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.methods = {}
        for f in P.fns.values():
            c = f.get("cls")
            if c and f["n"].split("::")[-1] in ("stream_write", "stream_read", "stream_data"):
                self.methods.setdefault(c, {})[f["n"].split("::")[-1]] = f

    # ---- wire tokens of a type: list of (kind, width) or ("rec", class)
    def wire(self, t, d, depth=0):
        t = bt(t)
        if depth > 12:
            return [("?", t)]
        if t in INTW:
            return [("i", INTW[t])]
        if t in FLTW:
            return [("f", FLTW[t])]
        m = re.match(r"^std::array<(.*), (\d+)>$", t)
        if m:
            return self.wire(m.group(1), d, depth + 1) * int(m.group(2))
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m:
            return self.wire(m.group(1), d, depth + 1) * int(m.group(2))
        m = re.match(r"^padding<(\d+)>$", t)
        if m:
            return [("pad", 1)] * int(m.group(1))
        if t == "padding_n":
            return [("padn", 0)]
        if t in self.P.enums:
            return self.wire(self.P.enums[t].get("u", "int"), d, depth + 1)
        ms = self.methods.get(t)
        if ms:
            key = (t, d)
            if key not in self.memo:
                self.memo[key] = [("rec", t)]
                seq = self.straight(t, d)
                if seq is not None:
                    self.memo[key] = [x for x, who in seq]
            return self.memo[key]
        r = self.P.recs.get(t)
        if r and r.get("bases") and len(r["bases"]) == 1 and not r["fields"]:
            b = r["bases"][0]
            return self.wire(b if isinstance(b, str) else b.get("n", b.get("t", "")), d, depth + 1)
        return [("?", t)]

    def method(self, cls, d):
        ms = self.methods.get(cls, {})
        return ms.get("stream_write" if d == "w" else "stream_read") or None

    def straight(self, cls, d):
        """[(token, member path)] if the class's streaming is one fixed sequence, else None."""
        ms = self.methods.get(cls, {})
        if "stream_data" in ms:
            f = ms["stream_data"]
            rets = [x for x in model.fn_nodes(f) if x.get("k") == "Return"]
            if len(rets) != 1:
                return None
            return self.tie(rets[0]["e"], None, d)
        f = self.method(cls, d)
        if f is None:
            return None
        A = Auto(self, f, d)
        return A.linear()

    def who(self, e, A):
        e = model.strip(e)
        k = e.get("k")
        if k == "Member" and "fn" not in e:
            b = e.get("base")
            if b is None or model.strip(b).get("k") == "This":
                return e["f"]
            w = self.who(b, A)
            return None if w is None else (w if e["f"] in ("_M_elems",) else w + "." + e["f"])
        if k == "Ref" and A is not None:
            return A.alias.get(e.get("id"))
        if k == "Index":
            w = self.who(e["base"], A)
            return w
        if k == "Call" and e.get("op") == "[]":
            return self.who(e["args"][0], A)
        if k == "Call" and e.get("op") == "*" and len(e["args"]) == 1:
            return self.who(e["args"][0], A)
        if k == "Call" and e.get("n", "").split("::")[-1] in ("emplace_back", "back", "front", "data") and e.get("obj") is not None:
            return self.who(e["obj"], A)
        if k == "Un" and e["op"] in ("*", "&"):
            return self.who(e["e"], A)
        if k == "Construct" and len(e.get("args", ())) == 1:
            return self.who(e["args"][0], A)
        return None

    def tie(self, e, A, d):
        e = model.strip(e)
        while e.get("k") == "Construct" and len(e.get("args", ())) == 1:
            e = model.strip(e["args"][0])
        if e.get("k") == "Call" and e.get("n") == "std::tie":
            out = []
            for a in e["args"]:
                w = self.who(a, A)
                out += [(x, w) for x in self.wire(a.get("t"), d)]
            return out
        return None

    def item(self, e, A, d):
        t = self.tie(e, A, d)
        if t is not None:
            return t
        w = self.who(e, A)
        c = model.strip(e)
        if c.get("k") == "Call" and c.get("n", "").split("::")[-1] in ("stream_data",) and c.get("fn") in self.P.fns:
            cls = self.P.fns[c["fn"]].get("cls")
            return [(x, w) for x in self.wire(cls, d)]
        return [(x, w) for x in self.wire(e.get("t"), d)]


def is_stream(t):
    t = bt(t).rstrip("*").strip()
    return "stream" in t and not t.startswith("std::tuple")


class Auto:
    """NFA of one streaming function (dir 'w' or 'r')."""

    def __init__(self, S, fn, d, inline=None, depth=4, stream=None):
        self.S, self.fn, self.d = S, fn, d
        P = S.P
        op = "<=" if d == "w" else ">="

        def pol(f, c, dp):
            n = f["n"].split("::")[-1]
            if f["n"].startswith(("logging::print", "logging::fun", "fmt::")):
                return False
            if n in ("operator<=", "operator>=", "stream_write", "stream_read", "stream_data", "need_swap"):
                return False
            return inline is None or inline(f, c, dp)
        self.B = cfg.Builder(P, inline=pol, max_depth=depth).build(fn)
        self.reach = cfg.reachable(self.B)
        self.alias = {}
        evs = [n for n in self.B.nodes if n.i in self.reach and n.ast is not None]
        for n in evs:
            e = n.ast
            if n.kind == "ev" and e.get("k") == "RVar":
                self.alias[e["id"]] = S.who(e["range"], self)
            elif n.kind == "ev" and e.get("k") == "Var" and e.get("init") is not None and (e["t"].endswith("&") or e.get("bind")):
                self.alias[e["id"]] = S.who(e["init"], self)
        # a local pushed into a member stands for that member's elements
        for n in evs:
            e = n.ast
            if n.kind == "ev" and e.get("k") == "Call" and e.get("n", "").split("::")[-1] in ("push_back", "emplace_back") and e.get("args"):
                w = S.who(e.get("obj"), self) if e.get("obj") else None
                s = model.strip(e["args"][0])
                while s.get("k") == "Call" and s.get("n", "").split("::")[-1] == "move" and s.get("args"):
                    s = model.strip(s["args"][0])
                while s.get("k") == "Construct" and len(s.get("args", ())) == 1:
                    s = model.strip(s["args"][0])
                if w and s.get("k") == "Ref" and s.get("id") not in self.alias:
                    self.alias[s["id"]] = w
        # which stream objects are (aliases of) the streamed parameter
        self.same = set()
        if stream is None:
            for p in fn["params"]:
                if is_stream(p["t"]):
                    self.same.add(self.B.frame0.map[p["id"]])
            for n in evs:
                e = n.ast
                if n.kind == "ev" and e.get("k") == "Var" and is_stream(e["t"]) and e["t"].endswith("&") and e.get("init") is not None:
                    r = model.strip(e["init"])
                    if r.get("k") == "Ref" and r.get("id") in self.same:
                        self.same.add(e["id"])
        self.toks = {}
        self.ops = []
        self.streamexit = False
        self.failing, self.given_up = set(), set()  # nothing is read any more once the stream has failed
        for n in evs:
            e = n.ast
            if n.kind == "br" and self.stream_cond(e):
                self.streamexit = True
                if d == "r":
                    self.failing.add((n.i, self.fails_when(e)))
            if d == "r" and n.kind == "ev" and e.get("k") == "Call" and e.get("n", "").split("::")[-1] == "setstate":
                self.given_up.add(n.i)
            if n.kind != "ev" or e.get("k") != "Call":
                continue
            a = e.get("args", ())
            m = e.get("n", "").split("::")[-1]
            o = e.get("obj")
            so = a[0] if e.get("op") == op and len(a) == 2 else o if o is not None and is_stream(o.get("t", "")) else (a[0] if a and m in (
                "stream_write", "stream_read") else None)
            if so is not None and self.same:
                r = model.strip(so)
                while r.get("k") == "Call" and r.get("op") == op and r.get("args"):
                    r = model.strip(r["args"][0])
                if r.get("k") == "Un":
                    r = model.strip(r["e"])
                if r.get("k") == "Ref" and r.get("id") not in self.same:
                    continue
            if e.get("op") == op and len(a) == 2 and is_stream(a[0].get("t", "")):
                self.toks[n.i] = S.item(a[1], self, d)
                self.ops.append(n)
            elif m == ("stream_write" if d == "w" else "stream_read") and o is not None and e.get("fn"):
                cls = bt(o.get("t")).rstrip("*").strip()
                f = P.fns.get(e["fn"])
                cls = f.get("cls", cls) if f else cls
                w = S.who(o, self)
                self.toks[n.i] = [(x, w) for x in S.wire(cls, d)]
                self.ops.append(n)
            elif o is not None and is_stream(o.get("t", "")) and m in (("write", "put") if d == "w" else ("read", "get")):
                if m in ("put", "get"):
                    self.toks[n.i] = [(("i", 1), None)]
                elif len(a) == 2:
                    c = cfg.cval(a[1])
                    w = S.who(strip_data(a[0]), self)
                    if isinstance(c, int) and 0 < c <= 64:
                        self.toks[n.i] = [(("i", c), w)]
                    else:
                        self.toks[n.i] = [(("blob", 0), w)]
                self.ops.append(n)

    @staticmethod
    def stream_cond(e):
        for x in model.walk(e):
            t = x.get("t", "")
            if x.get("k") in ("Ref", "Member", "Call") and isinstance(t, str) and is_stream(t):
                return True
        return False

    @staticmethod
    def fails_when(e):
        """the outcome of this test of a stream that means it has failed"""
        neg = False
        while True:
            e = model.strip(e)
            if e.get("k") == "Un" and e["op"] == "!":
                neg, e = not neg, e["e"]
            elif e.get("k") == "Call" and (e.get("op") == "!" or e.get("n", "").split("::")[-1] in ("fail", "bad", "eof")):
                return not neg
            else:
                return neg

    def onward(self, n):
        """successors on paths that go on reading or end normally"""
        if n.i in self.given_up:
            return []
        return [(s, l) for s, l in n.succ if l not in ("throw", "noreturn", "exc") and (n.i, l) not in self.failing]

    def linear(self):
        """The single token sequence of a branch-free function."""
        i, out, seen = self.B.entry.i, [], set()
        while True:
            if i in seen:
                return None
            seen.add(i)
            out += self.toks.get(i, [])
            n = self.B.nodes[i]
            if n is self.B.exit:
                return out
            ss = sorted({s for s, l in self.onward(n)})
            if len(ss) != 1:
                return None
            i = ss[0]

    # ---- NFA with expanded tokens: states (node, position)
    def step(self, states):
        """eps-close a set of (node,pos) and return (closed, {tok: (set(next), set(who))}, accepting)"""
        closed, st = set(), list(states)
        acc = False
        moves = {}
        while st:
            s = st.pop()
            if s in closed:
                continue
            closed.add(s)
            i, p = s
            t = self.toks.get(i, ())
            if p < len(t):
                tok, who = t[p]
                mv = moves.setdefault(tok, (set(), set()))
                mv[0].add((i, p + 1))
                mv[1].add(who)
                continue
            n = self.B.nodes[i]
            if n is self.B.exit:
                acc = True
            for x, l in self.onward(n):
                st.append((x, 0))
        return closed, moves, acc

    def start(self):
        return {(self.B.entry.i, 0)}


def strip_data(e):
    e = model.strip(e)
    if e.get("k") == "Call" and e.get("n", "").split("::")[-1] in ("data", "c_str") and e.get("obj") is not None:
        return e["obj"]
    return e


def norm(tok):
    return ("pad" if tok[0] == "pad" else tok[0], tok[1])


def equivalent(W, R):
    """Compare the writer's and reader's token languages. Returns list of differences."""
    diffs = []
    todo = [(frozenset(W.start()), frozenset(R.start()), ())]
    seen = set()
    while todo and len(seen) < 5000:
        a, b, tr = todo.pop()
        if (a, b) in seen:
            continue
        seen.add((a, b))
        ca, ma, fa = W.step(a)
        cb, mb, fb = R.step(b)
        if fa and not fb and not R.streamexit:
            diffs.append("after %s the writer may end but the reader expects %s" % (show(tr), sorted(map(str, mb))))
        if fb and not fa:
            diffs.append("after %s the reader may end but the writer continues with %s" % (show(tr), sorted(map(str, ma))))
        for t in set(ma) | set(mb):
            if t not in ma:
                diffs.append("after %s the reader reads %s where the writer writes %s" % (show(tr), t, sorted(map(str, ma)) or "nothing"))
            elif t not in mb:
                diffs.append("after %s the writer writes %s where the reader reads %s" % (show(tr), t, sorted(map(str, mb)) or "nothing"))
            else:
                wa, wb = ma[t][1], mb[t][1]
                if None not in wa and None not in wb and wa != wb:
                    diffs.append("after %s the writer writes %s but the reader stores it in %s" % (show(tr), sorted(wa), sorted(wb)))
                todo.append((frozenset(ma[t][0]), frozenset(mb[t][0]), tr + ((t, sorted(x or "-" for x in ma[t][1])[0]),)))
        if len(diffs) > 6:
            break
    return diffs


def show(tr):
    return "[" + " ".join("%s%s%s" % (t[0], t[1] if t[0] != "rec" else ":" + t[1], "" if w == "-" else "(" + w + ")") for t, w in tr[-6:]) + "]"
