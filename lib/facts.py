"""Forward abstract interpretation over an inlined CFG in a domain of linear
inequalities between program terms (variables, field paths, container sizes).
No solver: entailment is a bounded search for a non-negative combination."""
import re
from model import path, strip

INT_RANGE = {
    "unsigned char": (0, 255), "char": (-128, 127), "signed char": (-128, 127), "short": (-32768, 32767),
    "unsigned short": (0, 65535), "int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1),
    "unsigned long": (0, 2**64 - 1), "bool": (0, 1), "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1),
    "std::byte": (0, 255), "wchar_t": (-2**31, 2**31 - 1), "char8_t": (0, 255),
}
FLOAT = ("float", "double", "long double")
SEQ = re.compile(r"^(const )?(std::(vector|basic_string|array|span|basic_string_view|deque|optional)|QImage)\b")


def base_type(t):
    t = t or "?"
    t = t.rstrip("&").strip()
    if t.startswith("const "):
        t = t[6:]
    if t.startswith("volatile "):
        t = t[9:]
    return t.strip()


class Lin:
    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = k

    def __add__(self, o):
        c = dict(self.c)
        for t, v in o.c.items():
            n = c.get(t, 0) + v
            if n:
                c[t] = n
            else:
                c.pop(t, None)
        return Lin(c, self.k + o.k)

    def scale(self, s):
        if s == 0:
            return Lin()
        return Lin({t: v * s for t, v in self.c.items()}, self.k * s)

    def __sub__(self, o):
        return self + o.scale(-1)

    def key(self):
        return (tuple(sorted(self.c.items())), self.k)

    def shift(self, k):
        return Lin(self.c, self.k + k)

    def is_const(self):
        return not self.c

    def __repr__(self):
        s = " + ".join(("%s" % t if v == 1 else "%s*%s" % (v, t)) for t, v in sorted(self.c.items()))
        return (s + " + " if s else "") + str(self.k)


class FD(dict):
    """Fact table with a version, so that indexes over it can be cached."""
    __slots__ = ("ver",)
    _n = 0

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.bump()

    def bump(self):
        FD._n += 1
        self.ver = FD._n

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self.bump()

    def pop(self, *a):
        self.bump()
        return dict.pop(self, *a)


class State:
    __slots__ = ("facts", "alias", "palias", "defs", "ne", "types", "dead")

    def __init__(self):
        self.facts = FD()  # key of coefs -> best (max strength) constant: sum + k >= 0, smallest k strongest
        self.alias = {}
        self.palias = {}
        self.defs = {}
        self.ne = {}
        self.dead = False

    def copy(self):
        s = State()
        s.facts = FD(self.facts)
        s.alias = dict(self.alias)
        s.palias = dict(self.palias)
        s.defs = dict(self.defs)
        s.ne = dict(self.ne)
        return s


def norm(L):
    return tuple(sorted(L.c.items()))


class Engine:
    def __init__(self, B, P, assume=None, on_event=None, entry=None, pure_calls=(), size_like=None, max_iter=40000):
        self.B = B
        self.P = P
        self.types = {}  # term -> base type
        self.on_event = on_event
        self.entry = entry
        self.templates = None
        self.max_iter = max_iter
        self.depth = 5
        self.cur = None

    # ---- terms
    def term(self, e, st):
        """Canonical path term for an lvalue-ish expression, or None."""
        k = e.get("k")
        if k == "Ref":
            if e.get("dk") in ("global", "slocal"):
                r = "g:" + e["gk"]
            elif "id" in e:
                i = e["id"]
                if i in st.alias:
                    r = st.alias[i]
                else:
                    r = "v:%s" % i
            else:
                return None
            return r
        if k == "This":
            return "this"
        if k == "Member":
            if "fn" in e:
                return None
            b = e.get("base")
            if b is None:
                return "this." + e["f"]
            if e.get("anon"):
                return self.term(b, st)
            bt = self.ptr_term(b, st) if (e.get("arrow") or b.get("t", "").endswith("*")) else self.term(b, st)
            if bt is None:
                return None
            return bt + "." + e["f"]
        if k == "Cast":
            if e.get("ck") in ("ArrayToPointerDecay", "BaseToDerived", "DerivedToBase", "BitCast", "NoOp", "UncheckedDerivedToBase"):
                return self.term(e["e"], st)
            return None
        if k == "Index":
            return self.elem(e["base"], e["idx"], st)
        if k == "Un" and e["op"] == "*":
            t = self.ptr_term(e["e"], st)
            return t
        if k == "Un" and e["op"] in ("++", "--"):
            return self.term(e["e"], st)
        if k == "Call":
            n = e.get("n", "")
            m = n.split("::")[-1]
            if e.get("op") == "[]" and len(e["args"]) == 2:
                return self.elem(e["args"][0], e["args"][1], st)
            if e.get("op") in ("*", "->") and len(e["args"]) == 1:
                b = self.term(e["args"][0], st)
                return b + "->" if b else None
            if m in ("at",) and e.get("obj") is not None and len(e["args"]) == 1:
                return self.elem(e["obj"], e["args"][0], st)
            if n in ("std::move", "std::forward", "std::as_const") and e.get("args"):
                return self.term(e["args"][0], st)
            if n in ("std::get",) and e.get("args"):
                b = self.term(e["args"][0], st)
                return b + ".get<%s>" % e.get("t", "") if b else None
            if e.get("obj") is not None and not e["args"] and m in ("value", "get"):
                b = self.term(e["obj"], st)
                return b + "->" if b else None
            if e.get("obj") is not None and not e["args"] and e.get("m") == 2 and m in ("front", "back"):
                b = self.term(e["obj"], st)
                return "%s.%s()" % (b, m) if b else None
        if k == "Construct" and e.get("copy") and len(e.get("args", ())) == 1:
            return self.term(e["args"][0], st)
        return None

    def ptr_term(self, e, st):
        """Term denoting *e for a pointer expression e."""
        k = e.get("k")
        if k == "Cast":
            return self.ptr_term(e["e"], st)
        if k == "Un" and e["op"] == "&":
            return self.term(e["e"], st)
        if k == "Ref" and "id" in e and e["id"] in st.palias:
            return st.palias[e["id"]]
        if k == "This":
            return "this"
        t = self.term(e, st)
        if t is None:
            return None
        return t + "->"

    def elem(self, base, idx, st):
        bt = base.get("t", "")
        if bt.endswith("*") and not (base.get("k") == "Cast" and base.get("ck") == "ArrayToPointerDecay"):
            b = self.ptr_term(base, st)
        else:
            b = self.term(base, st)
        if b is None:
            return None
        L = self.lin(idx, st)
        if L is None:
            return None
        return "%s[%s]" % (b, L)

    def settype(self, term, t):
        self.types.setdefault(term, base_type(t))

    # ---- linear value of an expression
    def lin(self, e, st):
        k = e.get("k")
        if k == "Int":
            return Lin({}, e["v"]) if type(e["v"]) is int else None
        if k == "Float":
            v = e["v"]
            return Lin({}, int(v)) if v == int(v) else Lin({}, v)
        if "cv" in e and k != "Cast":
            return Lin({}, int(e["cv"]))
        if k == "Zero":
            return Lin()
        if k == "Null":
            return Lin()
        if k == "Cast":
            return self.lin_cast(e, st)
        if k in ("Ref", "Member", "Index"):
            t = self.term(e, st)
            if t is None:
                return None
            self.settype(t, e.get("t"))
            return Lin({t: 1})
        if k == "Construct":
            a = e.get("args", ())
            if len(a) == 1:
                return self.lin(a[0], st)
            return None
        if k == "Init" and len(e["c"]) == 1 and e["c"][0]:
            return self.lin(e["c"][0], st)
        if k == "Un":
            op = e["op"]
            if op == "-":
                L = self.lin(e["e"], st)
                return L.scale(-1) if L is not None else None
            if op == "+":
                return self.lin(e["e"], st)
            if op in ("++", "--"):
                return self.lin(e["e"], st)
            if op == "p++":
                L = self.lin(e["e"], st)
                return L.shift(-1) if L is not None else None
            if op == "p--":
                L = self.lin(e["e"], st)
                return L.shift(1) if L is not None else None
            if op == "&":
                x = e["e"]
                if x.get("k") in ("Index",) or x.get("k") == "Call" and x.get("op") == "[]":
                    b, i = (x["base"], x["idx"]) if x["k"] == "Index" else x["args"]
                    pb, li = self.addr(b, st), self.lin(i, st)
                    if pb is not None and li is not None:
                        return pb + li
                t = self.term(x, st)
                return Lin({"&" + t: 1}) if t else None
            if op == "*":
                t = self.term(e, st)
                if t is None:
                    return None
                self.settype(t, e.get("t"))
                return Lin({t: 1})
            return None
        if k == "Bin":
            op = e["op"]
            if op == "=":
                return self.lin(e["a"], st)
            if op in ("+=", "-="):
                return self.lin(e["a"], st)
            if op in ("+", "-"):
                a, b = self.lin(e["a"], st), self.lin(e["b"], st)
                if a is None or b is None:
                    return None
                r = a + b if op == "+" else a - b
                bt = base_type(e.get("t"))
                if bt in ("unsigned int", "unsigned long", "unsigned long long", "unsigned short", "unsigned char"):
                    if not r.is_const():
                        if op == "-" and not self.entails(st, r):
                            return None
                        if op == "+" and bt == "unsigned int" and not self.entails(st, r.scale(-1).shift(2**32 - 1)):
                            return None
                return r
            if op == "*":
                a, b = self.lin(e["a"], st), self.lin(e["b"], st)
                if a is not None and b is not None:
                    if a.is_const():
                        return b.scale(a.k)
                    if b.is_const():
                        return a.scale(b.k)
                if a is not None and b is not None:
                    t = "(%s*%s)" % tuple(sorted((str(a), str(b))))
                    self.settype(t, e.get("t"))
                    return Lin({t: 1})
                return None
            if op == "/":
                a, b = self.lin(e["a"], st), self.lin(e["b"], st)
                if a is not None and b is not None and b.is_const() and b.k > 0:
                    if a.is_const():
                        return Lin({}, int(a.k / b.k))
                    t = "(%s/%s)" % (a, b.k)
                    self.settype(t, e.get("t"))
                    # b*t <= a (for a >= 0)
                    if self.entails(st, a):
                        self.extra_facts(st, [a - Lin({t: b.k}), Lin({t: 1}), Lin({t: b.k}) - a + Lin({}, b.k - 1)])
                    return Lin({t: 1})
                return None
            if op in ("%", "&", ">>"):
                a, b = self.lin(e["a"], st), self.lin(e["b"], st)
                if a is not None and b is not None and b.is_const():
                    if a.is_const() and a.k >= 0:
                        return Lin({}, {"%": lambda: a.k % b.k if b.k else 0, "&": lambda: a.k & b.k, ">>": lambda: a.k >> b.k}[op]())
                    t = "(%s%s%s)" % (a, op, b.k)
                    self.settype(t, e.get("t"))
                    if op == "&" and b.k >= 0:
                        self.extra_facts(st, [Lin({t: 1}), Lin({t: -1}, b.k)])
                    elif op == "%" and b.k > 0 and self.entails(st, a):
                        self.extra_facts(st, [Lin({t: 1}), Lin({t: -1}, b.k - 1)])
                    elif op == ">>" and self.entails(st, a):
                        self.extra_facts(st, [Lin({t: 1}), a - Lin({t: 2**b.k}), Lin({t: 2**b.k}) - a + Lin({}, 2**b.k - 1)])
                    return Lin({t: 1})
                return None
            if op == "<<":
                a, b = self.lin(e["a"], st), self.lin(e["b"], st)
                if a is not None and b is not None and b.is_const() and 0 <= b.k < 63:
                    return a.scale(2**b.k)
                return None
            return None
        if k == "Call":
            return self.lin_call(e, st)
        return None

    def extra_facts(self, st, fs):
        for f in fs:
            self.add(st, f)

    def addr(self, e, st):
        """Linear address of the first element of array/vector expression, or pointer value."""
        t = e.get("t", "")
        if t.endswith("*") and not (e.get("k") == "Cast" and e.get("ck") == "ArrayToPointerDecay"):
            return self.lin(e, st)
        b = self.term(e, st)
        return Lin({"data(%s)" % b: 1}) if b else None

    def lin_call(self, e, st):
        n = e.get("n", "")
        m = n.split("::")[-1]
        o = e.get("obj")
        a = e.get("args", ())
        if o is not None and not a:
            if m in ("size", "length"):
                at = re.match(r"^(?:const )?std::array<.*, (\d+)>", base_type(o.get("t", "")))
                if at:
                    return Lin({}, int(at.group(1)))
                b = self.term(o, st)
                if b is None:
                    return None
                t = "size(%s)" % b
                self.types[t] = "size"
                return Lin({t: 1})
            if m in ("data", "c_str"):
                b = self.term(o, st)
                return Lin({"data(%s)" % b: 1}) if b else None
            if m in ("begin", "cbegin"):
                b = self.term(o, st)
                return Lin({"data(%s)" % b: 1}) if b else None
            if m in ("end", "cend"):
                b = self.term(o, st)
                if b is None:
                    return None
                at = re.match(r"^(?:const )?std::array<.*, (\d+)>", base_type(o.get("t", "")))
                if at:
                    return Lin({"data(%s)" % b: 1}, int(at.group(1)))
                self.types["size(%s)" % b] = "size"
                return Lin({"data(%s)" % b: 1, "size(%s)" % b: 1})
            if n.startswith("std::numeric_limits"):
                return None
        if n == "std::size" and len(a) == 1:
            b = self.term(a[0], st)
            if b:
                self.types["size(%s)" % b] = "size"
                return Lin({"size(%s)" % b: 1})
        if n in ("std::move", "std::forward") and len(a) == 1:
            return self.lin(a[0], st)
        if e.get("op") in ("+", "-") and len(a) == 2:
            x, y = self.lin(a[0], st), self.lin(a[1], st)
            if x is not None and y is not None:
                return x + y if e["op"] == "+" else x - y
            return None
        if e.get("op") in ("++", "--") and len(a) >= 1:
            L = self.lin(a[0], st)
            if L is None:
                return None
            if len(a) == 2:
                return L.shift(-1 if e["op"] == "++" else 1)
            return L
        if n in ("std::min", "std::max") and len(a) >= 2:
            x, y = self.lin(a[0], st), self.lin(a[1], st)
            if x is None and y is None:
                return None
            t = "%s(%s,%s)" % (n[5:], x, y)
            self.settype(t, e.get("t"))
            s = 1 if n == "std::min" else -1
            fs = []
            for q in (x, y):
                if q is not None:
                    fs.append((q - Lin({t: 1})).scale(s))
            # lower bound of min: any constant c with c <= both
            if x is not None and y is not None:
                for c in (0, 1):
                    if s == 1 and self.entails(st, x.shift(-c)) and self.entails(st, y.shift(-c)):
                        fs.append(Lin({t: 1}, -c))
            self.extra_facts(st, fs)
            return Lin({t: 1})
        if e.get("op") in ("[]", "*", "->") or m in ("at", "front", "back", "value", "get"):
            t = self.term(e, st)
            if t is not None:
                self.settype(t, e.get("t"))
                return Lin({t: 1})
        # const accessor without arguments: a stable term of its object
        if o is not None and not a and e.get("m") == 2:
            b = self.term(o, st)
            if b is not None:
                t = "%s.%s()" % (b, m)
                self.settype(t, e.get("t"))
                return Lin({t: 1})
        # const accessor with scalar arguments: likewise
        if o is not None and a and e.get("m") == 2 and base_type(e.get("t")) in INT_RANGE and not e.get("op"):
            b = self.term(o, st)
            ls = [self.lin(x, st) for x in a]
            if b is not None and all(l is not None for l in ls):
                t = "%s.%s(%s)" % (b, m, ",".join(str(l) for l in ls))
                self.settype(t, e.get("t"))
                return Lin({t: 1})
        return None

    def lin_cast(self, e, st):
        ck = e["ck"]
        if ck in ("ArrayToPointerDecay",):
            return self.addr(e["e"], st)
        if ck in ("NoOp", "BitCast", "LValueToRValue", "DerivedToBase", "BaseToDerived", "IntegralToFloating", "FloatingCast",
                  "ConstructorConversion", "UserDefinedConversion", "NullToPointer", "IntegralToPointer", "PointerToIntegral"):
            return self.lin(e["e"], st)
        if ck == "IntegralCast":
            L = self.lin(e["e"], st)
            if L is None:
                if "cv" in e:
                    return Lin({}, int(e["cv"]))
                return None
            src, dst = base_type(e["from"]), base_type(e["t"])
            if "cv" in e:
                return Lin({}, int(e["cv"]))
            return self.int_cast(L, src, dst, st)
        if ck in ("FloatingToIntegral",):
            if "cv" in e:
                return Lin({}, int(e["cv"]))
            L = self.lin(e["e"], st)
            if L is None:
                return None
            if L.is_const():
                return Lin({}, int(L.k))
            t = "int(%s)" % L
            self.settype(t, e.get("t"))
            # truncation toward zero keeps integer bounds
            fs = []
            for f, c in self._bounds(st, L):
                fs.append((f, c))
            x = Lin({t: 1})
            for lo in self._consts(st, L, 1):
                if lo >= 0:
                    fs2 = x.shift(-int(lo // 1))
                    self.add(st, fs2)
            for hi in self._consts(st, L, -1):
                if hi >= 0:
                    self.add(st, Lin({t: -1}, int(hi // 1)))
            return x
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return None
        if "cv" in e:
            return Lin({}, int(e["cv"]))
        return None

    def _bounds(self, st, L):
        return []

    def _consts(self, st, L, sgn):
        """Constants c with sgn*(L) >= sgn*c known directly."""
        out = []
        key = norm(L.scale(sgn))
        if key in st.facts:
            # sum + k >= 0 -> sgn*L0 >= -k
            out.append((-st.facts[key]) * sgn + L.k)
        return out

    def int_cast(self, L, src, dst, st):
        if dst not in INT_RANGE:
            return L
        lo, hi = INT_RANGE[dst]
        if L.is_const():
            if lo <= L.k <= hi:
                return L
            w = hi - lo + 1
            k = (L.k - lo) % w + lo
            return Lin({}, k)
        if src in INT_RANGE:
            slo, shi = INT_RANGE[src]
            if slo >= lo and shi <= hi:
                return L
        if dst == "unsigned long" or dst == "unsigned int" or dst == "unsigned short" or dst == "unsigned char":
            if self.entails(st, L):
                if dst == "unsigned long" or self.entails(st, L.scale(-1).shift(hi)):
                    return L
                if src in INT_RANGE and INT_RANGE[src][1] <= hi:
                    return L
            t = "cast<%s>(%s)" % (dst, L)
            self.types[t] = dst
            self.ucasts[t] = (L, src)
            return Lin({t: 1})
        # to signed (narrowing or from unsigned)
        if self.sizeish(L):
            return L
        if self.entails(st, L.shift(-lo)) and self.entails(st, L.scale(-1).shift(hi)):
            return L
        t = "cast<%s>(%s)" % (dst, L)
        self.types[t] = dst
        self.ucasts[t] = (L, src)
        return Lin({t: 1})

    ucasts = None

    def sizeish(self, L):
        """Container sizes are assumed to fit an int."""
        return all(self.types.get(t) == "size" for t in L.c)

    # ---- facts
    def add(self, st, L):
        """Assume L >= 0."""
        if L.is_const():
            if L.k < 0:
                st.dead = True
            return
        key = norm(L)
        # normalise integer gcd
        old = st.facts.get(key)
        if old is None or L.k < old:
            st.facts[key] = L.k
        # bounded unsigned cast: the operand was not negative
        if old is not None and L.k >= old:
            return
        for t, v in list(L.c.items()):
            if v == -1 and self.ucasts and t in self.ucasts and t.startswith("cast<unsigned"):
                rest = {x: c for x, c in L.c.items() if x != t}
                if all(self.types.get(x) == "size" or self.types.get(x) in ("unsigned short", "unsigned char") or
                       self.types.get(x) in ("int", "short") for x in rest) and L.k < 2**31:
                    src, styp = self.ucasts[t]
                    if styp in ("int", "short", "char", "signed char", "long"):
                        self.add(st, src)
                        self.add(st, src - Lin({t: 1}))
                        self.add(st, Lin({t: 1}) - src)

    def tfacts(self, t):
        """Facts implied by the type of a term."""
        ty = self.types.get(t)
        if ty == "size":
            return [Lin({t: 1})]
        if ty in INT_RANGE:
            lo, hi = INT_RANGE[ty]
            r = [Lin({t: 1}, -lo)]
            if hi < 2**63:
                r.append(Lin({t: -1}, hi))
            return r
        return []

    def entails(self, st, L):
        if st.dead:
            return True
        if L.is_const():
            return L.k >= 0
        return self._ent(st, L, self.depth, set())

    def _ent(self, st, L, d, seen):
        if L.is_const():
            return L.k >= 0
        key = norm(L)
        k = st.facts.get(key)
        if k is not None and k <= L.k:
            return True
        if k is not None and k <= L.k + 1 and (key, k) and st.ne.get(key) == k:
            return True
        if d == 0:
            return False
        sk = (key, L.k)
        if sk in seen:
            return False
        seen.add(sk)
        # choose a term of L and a fact that cancels it
        best = sorted(L.c.items(), key=lambda x: x[0])
        idx = self._index(st)
        for t, v in best[:3]:
            for fkey in idx.get((t, v > 0), ()):
                fk = st.facts[fkey]
                fc = dict(fkey)
                m = fc[t]
                F = Lin(fc, fk)
                if v % m == 0:
                    R = L - F.scale(v // m)
                else:
                    R = L.scale(abs(m)) - F.scale(abs(v))
                if len(R.c) <= len(L.c) + 1 and self._ent(st, R, d - 1, seen):
                    return True
            for F in self.tfacts(t):
                m = F.c[t]
                if (m > 0) == (v > 0):
                    R = L - F.scale(abs(v))
                    if self._ent(st, R, d - 1, seen):
                        return True
        return False

    def _index(self, st):
        # facts by (term, sign)
        c = getattr(self, "_ix", None)
        if c is not None and c[0] == st.facts.ver:
            return c[1]
        idx = {}
        for fkey in st.facts:
            for t, v in fkey:
                idx.setdefault((t, v > 0), []).append(fkey)
        self._ix = (st.facts.ver, idx)
        return idx

    # ---- kills
    @staticmethod
    def mentions(term, p):
        """Does term string mention lvalue p (or something below / through it)?"""
        i = term.find(p)
        while i >= 0:
            j = i + len(p)
            okb = i == 0 or term[i - 1] in "([,&+*- /%<>"
            oka = j == len(term) or term[j] in ").[-,+*/ %<>&]"
            if okb and oka:
                return True
            i = term.find(p, i + 1)
        return False

    def kill(self, st, p, keep=()):
        dead = [k for k in st.facts if any(self.mentions(t, p) for t, _ in k)]
        if dead:
            self.project(st, p, dead)
        for k in dead:
            st.facts.pop(k, None)
        for k in [k for k in st.ne if any(self.mentions(t, p) for t, _ in k)]:
            st.ne.pop(k)
        for i in [i for i, a in st.alias.items() if self.mentions(a, p) and a != p]:
            del st.alias[i]
        for i in [i for i, a in st.palias.items() if self.mentions(a, p) and a != p]:
            del st.palias[i]
        for i in [i for i, a in st.defs.items() if any(self.mentions(x, p) for x in a[1])]:
            del st.defs[i]

    def project(self, st, p, dead):
        """Keep consequences of dead facts that do not mention p."""
        if len(dead) > 24:
            return
        new = []
        for a in dead:
            for t, v in a:
                if not self.mentions(t, p) or v <= 0:
                    continue
                for b in dead:
                    cb = dict(b)
                    if cb.get(t, 0) < 0:
                        A, Bf = Lin(dict(a), st.facts[a]), Lin(cb, st.facts[b])
                        R = A.scale(-cb[t]) + Bf.scale(v)
                        if R.c and not any(self.mentions(x, p) for x in R.c) and len(R.c) <= 4:
                            new.append(R)
        for R in new:
            self.add(st, R)

    def kill_field(self, st, f):
        s = "." + f
        def m(t):
            i = t.find(s)
            while i >= 0:
                j = i + len(s)
                if j == len(t) or t[j] in ").[-,+*/ %<>&]":
                    return True
                i = t.find(s, i + 1)
            return False
        for k in [k for k in st.facts if any(m(t) for t, _ in k)]:
            st.facts.pop(k)
        for i in [i for i, a in st.alias.items() if m(a)]:
            pass

    def assign(self, st, p, L, e=None, t=None):
        """p := L"""
        if t is not None and p.startswith("v:"):
            self.settype(p, t)
        if L is not None and p in L.c and L.c[p] in (1, -1) and abs(L.c[p]) == 1 and L.c[p] == 1:
            # p := p + r : substitute p -> p - r
            r = L - Lin({p: 1})
            if not any(self.mentions(x, p) for x in r.c):
                nf = FD()
                for k, c in st.facts.items():
                    F = Lin(dict(k), c)
                    if p in F.c:
                        if any(self.mentions(x, p) and x != p for x in F.c):
                            continue
                        F = F - r.scale(F.c[p])
                    elif any(self.mentions(x, p) for x in F.c):
                        continue
                    kk = norm(F)
                    if not F.c:
                        continue
                    if kk not in nf or F.k < nf[kk]:
                        nf[kk] = F.k
                st.facts = nf
                for k in [k for k in st.ne if any(self.mentions(x, p) for x, _ in k)]:
                    st.ne.pop(k)
                for i in [i for i, a in st.alias.items() if self.mentions(a, p) and a != p]:
                    del st.alias[i]
                for i in [i for i, a in st.defs.items() if any(self.mentions(x, p) for x in a[1])]:
                    del st.defs[i]
                return
        if L is not None and any(self.mentions(x, p) for x in L.c):
            # evaluate bounds before the kill
            tmp = "tmp:" + p
            self.types[tmp] = self.types.get(p, "?")
            self.add(st, Lin({tmp: 1}) - L)
            self.add(st, L - Lin({tmp: 1}))
            self.kill(st, p)
            nf = FD()
            for k, c in st.facts.items():
                F = Lin({(p if x == tmp else x): v for x, v in k}, c)
                nf[norm(F)] = min(c, nf.get(norm(F), c))
            st.facts = nf
            return
        self.kill(st, p)
        if L is not None:
            x = Lin({p: 1})
            self.add(st, x - L)
            self.add(st, L - x)

    # ---- conditions
    def assume(self, st, e, pol):
        k = e.get("k")
        if k == "Cast":
            if e["ck"] in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "UserDefinedConversion"):
                return self.assume_nz(st, e["e"], pol)
            return self.assume(st, e["e"], pol)
        if k == "Un" and e["op"] == "!":
            return self.assume(st, e["e"], not pol)
        if k == "Bin":
            op = e["op"]
            if op == "&&":
                if pol:
                    self.assume(st, e["a"], True)
                    self.assume(st, e["b"], True)
                return
            if op == "||":
                if not pol:
                    self.assume(st, e["a"], False)
                    self.assume(st, e["b"], False)
                return
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return self.cmp(st, op, e["a"], e["b"], pol)
            if op == "=":
                return self.assume_nz(st, e["a"], pol)
        if k == "Call":
            op = e.get("op")
            if op in ("<", ">", "<=", ">=", "==", "!=") and len(e["args"]) == 2:
                return self.cmp(st, op, e["args"][0], e["args"][1], pol)
            m = e.get("n", "").split("::")[-1]
            if m == "empty" and e.get("obj") is not None:
                b = self.term(e["obj"], st)
                if b:
                    t = "size(%s)" % b
                    self.types[t] = "size"
                    if pol:
                        self.add(st, Lin({t: -1}))
                    else:
                        self.add(st, Lin({t: 1}, -1))
                return
        if k == "Ref" and e.get("id") in st.defs:
            d, _ = st.defs[e["id"]]
            self.assume(st, d, pol)
        self.assume_nz(st, e, pol)

    def assume_nz(self, st, e, pol):
        if e.get("k") in ("Bin", "Un") and e.get("op") in ("<", ">", "<=", ">=", "==", "!=", "&&", "||", "!"):
            return self.assume(st, e, pol)
        L = self.lin(e, st)
        if L is None:
            return
        if pol:
            if self.entails(st, L):
                self.add(st, L.shift(-1))
            elif self.entails(st, L.scale(-1)):
                self.add(st, L.scale(-1).shift(-1))
            self.note_ne(st, L)
        else:
            self.add(st, L)
            self.add(st, L.scale(-1))

    def note_ne(self, st, L):
        if L.c:
            st.ne[norm(L)] = L.k
            M = L.scale(-1)
            st.ne[norm(M)] = M.k

    def cmp(self, st, op, a, b, pol):
        if not pol:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        x, y = self.lin(a, st), self.lin(b, st)
        if x is None or y is None:
            return
        fl = base_type(a.get("t")) in FLOAT or base_type(b.get("t")) in FLOAT
        one = 0 if fl else 1
        if not fl and op in ("<", "<=", ">", ">="):
            need = {"<": (y - x).shift(-1), "<=": y - x, ">": (x - y).shift(-1), ">=": x - y}[op]
            if need.c and self.entails(st, need.scale(-1).shift(-1)):
                st.dead = True
                return
        if op == "<":
            self.add(st, (y - x).shift(-one))
        elif op == "<=":
            self.add(st, y - x)
        elif op == ">":
            self.add(st, (x - y).shift(-one))
        elif op == ">=":
            self.add(st, x - y)
        elif op == "==":
            self.add(st, x - y)
            self.add(st, y - x)
        elif op == "!=":
            d = x - y
            if self.entails(st, d):
                self.add(st, d.shift(-1))
            elif self.entails(st, d.scale(-1)):
                self.add(st, d.scale(-1).shift(-1))
            self.note_ne(st, d)

    # ---- transfer
    def transfer(self, n, st):
        e = n.ast
        k = e.get("k")
        if k == "Var":
            p = "v:%s" % e["id"]
            i = e.get("init")
            st.alias.pop(e["id"], None)
            st.palias.pop(e["id"], None)
            st.defs.pop(e["id"], None)
            if i is None:
                self.kill(st, p)
                if SEQ.match(e["t"]):
                    self.types["size(%s)" % p] = "size"
                    if not e["t"].startswith(("std::array", "std::span")):
                        self.add(st, Lin({"size(%s)" % p: -1}))
                return
            if e["t"].endswith("&") or e.get("bind"):
                t = self.term(i, st)
                self.kill(st, p)
                if t is not None and not self.mentions(t, p):
                    st.alias[e["id"]] = t
                    return
                if e["t"].endswith("*"):
                    pass
                L = self.lin(i, st)
                if L is not None:
                    self.assign(st, p, L, t=e["t"])
                return
            L = self.lin(i, st) if not SEQ.match(e["t"]) else None
            src = None
            if e["t"].endswith("*"):
                x = strip(i)
                if x.get("k") == "Un" and x["op"] == "&":
                    src = self.term(x["e"], st)
                elif x.get("k") in ("Ref", "Member") and x.get("dk") != "ret":
                    src = self.ptr_term(x, st)
            # containers: copied or sized
            if SEQ.match(e["t"]):
                sz = self.seq_size(i, st)
                self.kill(st, p)
                self.types["size(%s)" % p] = "size"
                if sz is not None:
                    self.add(st, Lin({"size(%s)" % p: 1}) - sz)
                    self.add(st, sz - Lin({"size(%s)" % p: 1}))
                return
            self.assign(st, p, L, t=e["t"])
            if src is not None and not self.mentions(src, p):
                st.palias[e["id"]] = src
            if base_type(e["t"]) == "bool" and i.get("k") in ("Bin", "Un", "Call", "Cast"):
                st.defs[e["id"]] = (i, self.deps(i, st))
            return
        if k == "RVar":
            p = "v:%s" % e["id"]
            st.alias.pop(e["id"], None)
            st.palias.pop(e["id"], None)
            st.defs.pop(e["id"], None)
            self.kill(st, p)
            self.settype(p, e["t"])
            return
        if k == "LParam":
            p = "v:%s" % e["id"]
            st.alias.pop(e["id"], None)
            st.palias.pop(e["id"], None)
            self.kill(st, p)
            self.settype(p, e["t"])
            return
        if k == "Bin":
            op = e["op"]
            if op == "=" or (op[-1] == "=" and op not in ("==", "!=", "<=", ">=")):
                p = self.term(e["a"], st)
                if op == "=":
                    L = self.lin(e["b"], st)
                elif op in ("+=", "-="):
                    a, b = self.lin(e["a"], st), self.lin(e["b"], st)
                    L = None if a is None or b is None else (a + b if op == "+=" else a - b)
                    if L is not None and op == "-=" and base_type(e["a"].get("t")).startswith("unsigned") and not self.entails(st, L):
                        L = None
                elif op == "/=":
                    L = self.lin({"k": "Bin", "op": "/", "a": e["a"], "b": e["b"], "t": e["a"].get("t")}, st)
                elif op == ">>=":
                    L = self.lin({"k": "Bin", "op": ">>", "a": e["a"], "b": e["b"], "t": e["a"].get("t")}, st)
                elif op == "*=":
                    L = self.lin({"k": "Bin", "op": "*", "a": e["a"], "b": e["b"], "t": e["a"].get("t")}, st)
                else:
                    L = None
                if p is None:
                    # unknown target: forget fields of that name
                    if e["a"].get("k") == "Member":
                        self.kill_field(st, e["a"]["f"])
                    return
                if e["a"].get("k") == "Ref" and "id" in e["a"]:
                    st.palias.pop(e["a"]["id"], None)
                    st.defs.pop(e["a"]["id"], None)
                src = None
                if op == "=" and e["a"].get("k") == "Ref" and e["a"].get("t", "").endswith("*") and p == "v:%s" % e["a"]["id"]:
                    x = strip(e["b"])
                    if x.get("k") == "Un" and x["op"] == "&":
                        src = self.term(x["e"], st)
                self.assign(st, p, L, t=e["a"].get("t"))
                if src is not None and not self.mentions(src, p):
                    st.palias[e["a"]["id"]] = src
                if op == "=" and base_type(e["a"].get("t")) == "bool" and e["a"].get("k") == "Ref" and e["b"].get("k") in (
                        "Bin", "Un", "Call") and "id" in e["a"]:
                    d = self.deps(e["b"], st)
                    if p not in d:
                        st.defs[e["a"]["id"]] = (e["b"], d)
            return
        if k == "Un" and e["op"] in ("++", "--", "p++", "p--"):
            p = self.term(e["e"], st)
            if p is None:
                if e["e"].get("k") == "Member":
                    self.kill_field(st, e["e"]["f"])
                return
            self.settype(p, e["e"].get("t"))
            if e["e"].get("k") == "Ref" and "id" in e["e"]:
                st.palias.pop(e["e"]["id"], None)
            d = 1 if "+" in e["op"] else -1
            x = Lin({p: 1}, d)
            if d < 0 and base_type(e["e"].get("t")).startswith("unsigned") and not self.entails(st, x):
                x = None
            self.assign(st, p, x)
            return
        if k in ("Call", "Construct"):
            self.call(e, st)
            return

    def deps(self, e, st):
        from model import walk
        out = set()
        for x in walk(e):
            if x.get("k") in ("Ref", "Member", "Index"):
                t = self.term(x, st)
                if t:
                    out.add(t)
        return out

    def seq_size(self, i, st):
        x = i
        while x.get("k") == "Cast":
            x = x["e"]
        k = x.get("k")
        if k == "Construct":
            a = x.get("args", ())
            if x.get("copy") and a:
                return self.seq_size(a[0], st)
            if not a:
                return Lin()
            if a and base_type(a[0].get("t", "")) in INT_RANGE and not x.get("list"):
                return self.lin(a[0], st)
            if len(a) >= 2 and a[0].get("t") == a[1].get("t"):
                p, q = self.lin(a[0], st), self.lin(a[1], st)
                if p is not None and q is not None:
                    return q - p
            return None
        if k in ("Ref", "Member", "Index", "Call"):
            t = self.term(x, st)
            if t and SEQ.match(base_type(x.get("t", ""))):
                self.types["size(%s)" % t] = "size"
                return Lin({"size(%s)" % t: 1})
        return None

    def call(self, e, st):
        n = e.get("n", "")
        m = n.split("::")[-1]
        o = e.get("obj")
        a = e.get("args", ())
        op = e.get("op")
        if op in ("++", "--") and a:
            p = self.term(a[0], st)
            if p is not None:
                self.assign(st, p, Lin({p: 1}, 1 if op == "++" else -1))
            return
        if op == "=" and len(a) == 2:
            p = self.term(a[0], st)
            if p is not None:
                if SEQ.match(base_type(a[0].get("t", ""))):
                    sz = self.seq_size(a[1], st)
                    s = "size(%s)" % p
                    if sz is not None and any(self.mentions(x, p) for x in sz.c):
                        sz = None
                    self.kill(st, p)
                    self.types[s] = "size"
                    if sz is not None:
                        self.add(st, Lin({s: 1}) - sz)
                        self.add(st, sz - Lin({s: 1}))
                else:
                    L = self.lin(a[1], st)
                    if L is not None and not SEQ.match(base_type(a[0].get("t", ""))) and (
                            "iterator" in a[0].get("t", "") or "*" in a[0].get("t", "")):
                        self.assign(st, p, L)
                    else:
                        self.kill(st, p)
            return
        if op in ("+=", "-=") and len(a) == 2 and "iterator" in a[0].get("t", ""):
            p, L = self.term(a[0], st), self.lin(a[1], st)
            if p is not None:
                self.assign(st, p, Lin({p: 1}) + L.scale(1 if op == "+=" else -1) if L is not None else None)
            return
        if o is not None and n.startswith("std::") or (o is not None and m in ("push_back", "emplace_back", "resize", "clear")):
            b = self.term(o, st)
            if e.get("m") == 2:
                return
            if m in ("begin", "end", "data", "at", "front", "back", "operator[]", "size", "reserve", "get", "operator->", "operator*", "find",
                     "shrink_to_fit", "c_str", "lock", "unlock", "value", "cbegin", "cend", "count", "contains", "good"):
                return
            if b is None:
                return
            s = "size(%s)" % b
            self.types[s] = "size"
            if m in ("push_back", "emplace_back"):
                keep = FD({k: v for k, v in st.facts.items() if all(not self.mentions(t, b) or t == s for t, _ in k)})
                st.facts = keep
                self.assign(st, s, Lin({s: 1}, 1))
                return
            if m == "pop_back":
                self.assign(st, s, Lin({s: 1}, -1))
                return
            if m == "clear":
                self.kill(st, b)
                self.add(st, Lin({s: -1}))
                return
            if m in ("resize", "assign") and a and base_type(a[0].get("t", "")) in INT_RANGE:
                L = self.lin(a[0], st)
                if L is not None and any(self.mentions(x, b) for x in L.c):
                    # e.g. v.resize(v.size() + n)
                    self.assign(st, s, L)
                    return
                self.kill(st, b)
                if L is not None:
                    self.add(st, Lin({s: 1}) - L)
                    self.add(st, L - Lin({s: 1}))
                return
            if "iterator" in o.get("t", "") or m in ("read", "seekg", "write", "open", "close", "getline", "insert_or_assign"):
                pass
            self.kill(st, b)
            self.kill_args(e, st)
            return
        if o is not None and e.get("m") == 1:
            b = self.term(o, st)
            if b is not None and b != "this":
                self.kill(st, b)
        elif e.get("op") and a and e.get("m") == 1:
            b = self.term(a[0], st)
            if b is not None and op not in ("[]", "*", "->", "()"):
                self.kill(st, b)
        self.kill_args(e, st)

    def kill_args(self, e, st):
        if e.get("n", "").startswith(("logging::", "fmt::", "std::make_", "std::forward_as")):
            return  # formatting only; forwarding references
        if e.get("n", "") in ("std::move", "std::forward", "std::as_const", "std::addressof"):
            return
        mp = e.get("mp", ())
        a = list(e.get("args", ()))
        if e.get("op") and e.get("m") in (1, 2) and len(a) == len(mp) + 1:
            a = a[1:]
        for i, x in enumerate(a):
            if i >= len(mp):
                break
            if mp[i] == 1:
                t = self.term(x, st)
                if t is not None:
                    self.kill(st, t)
            elif mp[i] == 3:
                t = self.ptr_term(x, st)
                if t is not None:
                    self.kill(st, t)

    # ---- fixpoint
    def join(self, a, b, loop, visits):
        """a: old state at node; b: incoming."""
        if a is None:
            return b, True
        if b.dead:
            return a, False
        if a.dead:
            return b, True
        r = State()
        changed = False
        for k, c in a.facts.items():
            L = Lin(dict(k), c)
            if self.entails(b, L):
                r.facts[k] = c
            else:
                # weaken to b's constant
                kb = b.facts.get(k)
                if kb is not None and kb > c and not (loop and visits > 2):
                    r.facts[k] = kb
                changed = True
        cand = []
        if not (loop and visits > 2):
            cand = [Lin(dict(k), c) for k, c in b.facts.items() if k not in r.facts]
        for L in cand:
            if self.entails(a, L):
                k = norm(L)
                if k not in r.facts:
                    r.facts[k] = L.k
        for L in self.templates_at(a, b):
            k = norm(L)
            if k in r.facts and r.facts[k] <= L.k:
                continue
            if self.entails(a, L) and self.entails(b, L):
                r.facts[k] = L.k
        for i, t in a.alias.items():
            if b.alias.get(i) == t:
                r.alias[i] = t
            else:
                changed = True
        for i, t in a.palias.items():
            if b.palias.get(i) == t:
                r.palias[i] = t
            else:
                changed = True
        for i, t in a.defs.items():
            if i in b.defs and b.defs[i][0] is t[0]:
                r.defs[i] = t
            else:
                changed = True
        for k, v in a.ne.items():
            if b.ne.get(k) == v:
                r.ne[k] = v
            else:
                changed = True
        if not changed and r.facts == a.facts:
            return a, False
        return r, (r.facts != a.facts or changed)

    def templates_at(self, a, b):
        return self.templates.values()

    def learn(self, st, e):
        """Collect the linear comparison of a branch as a join template."""
        if e.get("k") in ("Bin", "Call") and e.get("op") in ("<", ">", "<=", ">=", "==", "!="):
            x, y = (e["a"], e["b"]) if e["k"] == "Bin" else (e["args"] if len(e.get("args", ())) == 2 else (None, None))
            if x is None:
                return
            lx, ly = self.lin(x, st), self.lin(y, st)
            if lx is None or ly is None:
                return
            d = lx - ly
            if not d.c or len(self.templates) > 80:
                return
            for L in (d, d.scale(-1), d.shift(-1), d.scale(-1).shift(-1)):
                self.templates.setdefault(L.key(), L)

    def run(self):
        self.ucasts = {}
        self.templates = {}
        N = self.B.nodes
        inst = {}
        visits = {}
        st0 = State()
        self.frame0 = self.B.frame0
        for p in self.B.fn["params"]:
            self.settype("v:%s" % self.B.frame0.map[p["id"]], p["t"])
        if self.entry:
            self.entry(self, st0)
        inst[self.B.entry.i] = st0
        order = self.rpo()
        import heapq
        wl = [(order[self.B.entry.i], self.B.entry.i)]
        inwl = {self.B.entry.i}
        it = 0
        while wl:
            it += 1
            if it > self.max_iter:
                raise RuntimeError("no fixpoint in %s" % self.B.fn["n"])
            _, i = heapq.heappop(wl)
            inwl.discard(i)
            n = N[i]
            st = inst[i].copy()
            st.dead = inst[i].dead
            outs = self.step(n, st)
            for s, o in outs:
                if o.dead:
                    continue
                t = N[s]
                loop = t.kind == "loop"
                visits[s] = visits.get(s, 0) + 1
                r, ch = self.join(inst.get(s), o, loop, visits[s])
                if ch or s not in inst:
                    inst[s] = r
                    if s not in inwl:
                        heapq.heappush(wl, (order.get(s, 10**9), s))
                        inwl.add(s)
        self.inst = inst
        # reporting pass
        if self.on_event:
            for i in sorted(inst, key=lambda x: order.get(x, 10**9)):
                n = N[i]
                if n.kind in ("ev", "br", "switch") and n.ast is not None and not inst[i].dead:
                    self.cur = n
                    self.on_event(self, n, inst[i].copy())
        return self

    def step(self, n, st):
        outs = []
        if n.kind == "br":
            self.learn(st, n.ast)
            for s, lab in n.succ:
                o = st.copy()
                self.assume(o, n.ast, lab)
                outs.append((s, o))
            return outs
        if n.kind == "switch":
            L = self.lin(n.ast, st)
            for s, lab in n.succ:
                o = st.copy()
                if L is not None and lab and lab[0] == "case" and lab[1] is not None:
                    self.add(o, L.shift(-lab[1]))
                    self.add(o, L.scale(-1).shift(lab[2]))
                outs.append((s, o))
            return outs
        exc = None
        if n.kind == "ev":
            if n.exc is not None:
                exc = st.copy()
            self.transfer(n, st)
        for s, lab in n.succ:
            outs.append((s, st.copy() if len(n.succ) > 1 else st))
        if exc is not None and n.extra != "noreturn":
            outs.append((n.exc, exc))
        return outs

    def rpo(self):
        N = self.B.nodes
        seen, post = set(), []
        st = [(self.B.entry.i, 0)]
        seen.add(self.B.entry.i)
        while st:
            i, j = st[-1]
            n = N[i]
            outs = [s for s, _ in n.succ] + ([n.exc] if n.exc is not None else [])
            if j < len(outs):
                st[-1] = (i, j + 1)
                s = outs[j]
                if s not in seen:
                    seen.add(s)
                    st.append((s, 0))
            else:
                post.append(i)
                st.pop()
        return {i: k for k, i in enumerate(reversed(post))}
