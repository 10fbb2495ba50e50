"""Exact abstract interpretation of unary integer functions in the domain of
piecewise-affine maps: [lo,hi] -> a*x+b | throw.  Works on the inlined CFG, so the
shape of the code (helpers, ternaries, early returns) does not matter."""
import cfg, model
from facts import INT_RANGE, FLOAT, base_type

BIG = 2 ** 127


def type_range(t):
    t = base_type(t).replace("const ", "")
    if t in INT_RANGE:
        return INT_RANGE[t]
    if t in FLOAT:
        return (-BIG, BIG)
    return None


class Unknown(Exception):
    pass


CMP = {"<": lambda v: v < 0, "<=": lambda v: v <= 0, ">": lambda v: v > 0, ">=": lambda v: v >= 0, "==": lambda v: v == 0, "!=": lambda v: v != 0}


def fdiv(a, b):
    return a // b


class PWA:
    def __init__(self, P, fn, inline=None, depth=8):
        self.P = P
        self.fn = fn
        self.B = cfg.Builder(P, inline=inline or (lambda f, c, d: not f["n"].startswith(("logging::print", "fmt::"))), max_depth=depth).build(fn)
        self.pid = self.B.frame0.map[fn["params"][0]["id"]]
        self.out = []

    def run(self, lo=None, hi=None):
        r = type_range(self.fn["params"][0]["t"])
        if r is None:
            raise Unknown("parameter type " + self.fn["params"][0]["t"])
        lo = r[0] if lo is None else lo
        hi = r[1] if hi is None else hi
        self.out = []
        work = [(self.B.entry, {self.pid: (1, 0)}, lo, hi, None, 0)]
        while work:
            n, env, lo, hi, ret, steps = work.pop()
            if steps > 4000 or len(self.out) > 400:
                raise Unknown("does not terminate in the domain")
            if n is self.B.exit:
                self.out.append((lo, hi, "ret", ret))
                continue
            if n is self.B.excexit:
                self.out.append((lo, hi, "throw", None))
                continue
            nexts = []
            if n.kind == "br":
                for l, h, v in self.ev(n.ast, env, lo, hi):
                    nexts += self.branch(n, v, env, l, h, ret)
            elif n.kind == "ev":
                e = n.ast
                k = e.get("k")
                if k == "Var":
                    if e.get("init") is None:
                        nexts.append((env, lo, hi, ret, None))
                    else:
                        for l, h, v in self.ev(e["init"], env, lo, hi, soft=True):
                            e2 = dict(env)
                            e2[e["id"]] = v
                            nexts.append((e2, l, h, ret, None))
                elif k == "Return":
                    if e.get("e") is None:
                        nexts.append((env, lo, hi, None, None))
                    else:
                        for l, h, v in self.ev(e["e"], env, lo, hi, soft=True):
                            nexts.append((env, l, h, v, None))
                elif k == "Bin" and e["op"].endswith("=") and e["op"] not in CMP:
                    t = model.strip(e["a"])
                    if t.get("k") == "Ref" and "id" in t:
                        rhs = e["b"] if e["op"] == "=" else {"k": "Bin", "op": e["op"][:-1], "a": e["a"], "b": e["b"], "t": e.get("t", t.get("t"))}
                        for l, h, v in self.ev(rhs, env, lo, hi, soft=True):
                            for l2, h2, v2 in self.conv(v, t.get("t", ""), l, h) if v is not None else [(l, h, None)]:
                                e2 = dict(env)
                                e2[t["id"]] = v2
                                nexts.append((e2, l2, h2, ret, None))
                    else:
                        nexts.append((env, lo, hi, ret, None))
                elif k == "Throw":
                    self.out.append((lo, hi, "throw", None))
                    continue
                elif k == "Call" and e.get("n", "").split("::")[-1] in ("Error", "FError", "Error_", "exit", "abort"):
                    self.out.append((lo, hi, "throw", None))
                    continue
                else:
                    nexts.append((env, lo, hi, ret, None))
            else:
                nexts.append((env, lo, hi, ret, None))
            for env2, l, h, r2, target in nexts:
                if target is not None:
                    work.append((target, env2, l, h, r2, steps + 1))
                    continue
                ss = [self.B.nodes[s] for s, lab in n.succ]
                if len(ss) != 1:
                    raise Unknown("branching at %s" % n.where())
                work.append((ss[0], env2, l, h, r2, steps + 1))
        self.out.sort(key=lambda x: x[0])
        return self.merge(self.out)

    @staticmethod
    def merge(ps):
        out = []
        for p in ps:
            if out and out[-1][1] + 1 == p[0] and out[-1][2:] == p[2:]:
                out[-1] = (out[-1][0], p[1]) + p[2:]
            else:
                out.append(p)
        return out

    def branch(self, n, v, env, lo, hi, ret):
        tt = [self.B.nodes[s] for s, lab in n.succ if lab is True]
        ff = [self.B.nodes[s] for s, lab in n.succ if lab is False]
        if v is None:
            raise Unknown("condition %s" % model.path(n.ast))
        out = []
        if isinstance(v, tuple) and v[0] == "b":
            for l, h, t in v[1]:
                out.append((env, l, h, ret, (tt if t else ff)[0]))
            return out
        for l, h, t in self.truth(v, "!=", lo, hi):
            out.append((env, l, h, ret, (tt if t else ff)[0]))
        return out

    @staticmethod
    def truth(v, op, lo, hi):
        """Split [lo,hi] by (a*x+b op 0)."""
        a, b = v
        f = CMP[op]
        if a == 0:
            return [(lo, hi, f(b))]
        # cut points
        z = fdiv(-b, a)  # floor of root
        cuts = set()
        for c in (z - 1, z, z + 1):
            if lo <= c < hi:
                cuts.add(c)
        pts, l = [], lo
        for c in sorted(cuts):
            pts.append((l, c))
            l = c + 1
        pts.append((l, hi))
        out = []
        for l, h in pts:
            tl, th = f(a * l + b), f(a * h + b)
            if tl != th:
                raise Unknown("split")
            out.append((l, h, tl))
        return out

    def conv(self, v, t, lo, hi):
        """Value v converted to type t on [lo,hi]."""
        if isinstance(v, tuple) and v and v[0] == "b":
            return [(l, h, (0, 1 if x else 0)) for l, h, x in v[1]]
        bt = base_type(t).replace("const ", "")
        if bt == "bool":
            return [(l, h, (0, 1 if x else 0)) for l, h, x in self.truth(v, "!=", lo, hi)]
        r = type_range(t)
        if r is None:
            raise Unknown("type " + t)
        return self.wrap(v, r, lo, hi)

    def wrap(self, v, r, lo, hi):
        a, b = v
        M = r[1] - r[0] + 1
        if r[1] >= BIG:
            return [(lo, hi, v)]
        if a == 0:
            return [(lo, hi, (0, (b - r[0]) % M + r[0]))]
        y0, y1 = a * lo + b, a * hi + b
        if r[0] <= min(y0, y1) and max(y0, y1) <= r[1]:
            return [(lo, hi, v)]
        if a not in (1, -1):
            raise Unknown("wrap of slope %d" % a)
        k0, k1 = (min(y0, y1) - r[0]) // M, (max(y0, y1) - r[0]) // M
        if k1 - k0 > 64:
            return [(lo, hi, None)]
        out = []
        for k in range(k0, k1 + 1):
            a0, a1 = k * M + r[0], k * M + r[1]
            if a == 1:
                l, h = max(lo, a0 - b), min(hi, a1 - b)
            else:
                l, h = max(lo, b - a1), min(hi, b - a0)
            if l <= h:
                out.append((l, h, (a, b - k * M)))
        return sorted(out)

    def ev(self, e, env, lo, hi, soft=False):
        try:
            return self._ev(e, env, lo, hi)
        except Unknown:
            if soft:
                return [(lo, hi, None)]
            raise

    def _ev(self, e, env, lo, hi):
        if "cv" in e and isinstance(e["cv"], int):
            return [(lo, hi, (0, e["cv"]))]
        k = e.get("k")
        if k == "Int":
            return [(lo, hi, (0, int(e["v"])))]
        if k == "Float" and float(e["v"]) == int(float(e["v"])):
            return [(lo, hi, (0, int(float(e["v"]))))]
        if k == "Ref":
            if e.get("id") in env:
                v = env[e["id"]]
                if v is None:
                    raise Unknown(e["n"])
                return [(lo, hi, v)]
            raise Unknown("ref " + str(e.get("n")))
        if k == "Cast":
            out = []
            for l, h, v in self._ev(e["e"], env, lo, hi):
                if v is None:
                    raise Unknown("cast")
                if e.get("ck") in ("NoOp", "LValueToRValue"):
                    out.append((l, h, v))
                else:
                    out += self.conv(v, e["t"], l, h)
            return out
        if k == "Construct" and len(e.get("args", ())) == 1:
            return self._ev(e["args"][0], env, lo, hi)
        if k == "Init" and len(e["c"]) == 1:
            return self._ev(e["c"][0], env, lo, hi)
        if k == "Un":
            op = e["op"]
            if op in ("*", "&") :
                return self._ev(e["e"], env, lo, hi)
            out = []
            for l, h, v in self._ev(e["e"], env, lo, hi):
                if op == "+":
                    out.append((l, h, v))
                elif op == "-":
                    out.append((l, h, (-v[0], -v[1])))
                elif op == "~":
                    out.append((l, h, (-v[0], -v[1] - 1)))
                elif op == "!":
                    bs = v[1] if v[0] == "b" else self.truth(v, "!=", l, h)
                    out.append((l, h, ("b", [(a, b, not t) for a, b, t in bs])))
                else:
                    raise Unknown(op)
            return out
        if k == "Bin":
            op = e["op"]
            out = []
            for l, h, x in self._ev(e["a"], env, lo, hi):
                for l2, h2, y in self._ev(e["b"], env, l, h):
                    if x is None or y is None:
                        raise Unknown("operand")
                    if x[0] == "b":
                        x2 = self.conv(x, "int", l2, h2)
                    else:
                        x2 = [(l2, h2, x)]
                    for l3, h3, xx in x2:
                        ys = self.conv(y, "int", l3, h3) if y[0] == "b" else [(l3, h3, y)]
                        for l4, h4, yy in ys:
                            out += self.bin(op, xx, yy, e, l4, h4)
            return out
        if k == "Call" and e.get("n") in ("std::min", "std::max") and len(e["args"]) == 2:
            out = []
            for l, h, x in self._ev(e["args"][0], env, lo, hi):
                for l2, h2, y in self._ev(e["args"][1], env, l, h):
                    for l3, h3, t in self.truth((x[0] - y[0], x[1] - y[1]), "<=", l2, h2):
                        out.append((l3, h3, x if t == (e["n"] == "std::min") else y))
            return out
        if k == "Call" and not e.get("args") and e.get("n", "").split("::")[-1] in ("lowest", "max", "min") and type_range(e.get("t", "")):
            r = type_range(e["t"])
            return [(lo, hi, (0, r[1] if e["n"].endswith("max") else r[0]))]
        raise Unknown("expression " + model.path(e))

    def bin(self, op, x, y, e, lo, hi):
        if op in CMP:
            return [(lo, hi, ("b", self.truth((x[0] - y[0], x[1] - y[1]), op, lo, hi)))]
        if op == "+":
            v = (x[0] + y[0], x[1] + y[1])
        elif op == "-":
            v = (x[0] - y[0], x[1] - y[1])
        elif op == "*" and (x[0] == 0 or y[0] == 0):
            c, z = (x[1], y) if x[0] == 0 else (y[1], x)
            v = (z[0] * c, z[1] * c)
        elif op == "<<" and y[0] == 0:
            v = (x[0] << y[1], x[1] << y[1])
        elif op == "&" and (x[0] == 0 or y[0] == 0):
            c, z = (x[1], y) if x[0] == 0 else (y[1], x)
            if c >= 0 and (c & (c + 1)) == 0:
                return self.wrap(z, (0, c), lo, hi)
            if z[0] == 0:
                return [(lo, hi, (0, z[1] & c))]
            raise Unknown("mask")
        elif op in ("|", "^") and x[0] == 0 and y[0] == 0:
            v = (0, (x[1] | y[1]) if op == "|" else (x[1] ^ y[1]))
        else:
            raise Unknown("operator " + op)
        r = type_range(e.get("t", "int"))
        if r is None:
            raise Unknown("type")
        y0, y1 = v[0] * lo + v[1], v[0] * hi + v[1]
        if not (r[0] <= min(y0, y1) and max(y0, y1) <= r[1]):
            if r[0] == 0:
                return self.wrap(v, r, lo, hi)
            raise Unknown("signed overflow")
        return [(lo, hi, v)]


def check_inverse(down, up, drange, urange):
    """down, up: pieces. Every value down accepts comes back from up unchanged and vice versa.
    Returns a list of counter-descriptions."""
    bad = []

    def compose(f, g, names):
        for lo, hi, k, v in f:
            if k != "ret":
                continue
            if v is None or v[0] == "b":
                bad.append("%s is not affine on [%d,%d]" % (names[0], lo, hi))
                continue
            a, b = v
            for l2, h2, k2, v2 in g:
                # x with l2 <= a*x+b <= h2
                if a == 0:
                    if not l2 <= b <= h2:
                        continue
                    l, h = lo, hi
                elif a == 1:
                    l, h = max(lo, l2 - b), min(hi, h2 - b)
                elif a == -1:
                    l, h = max(lo, b - h2), min(hi, b - l2)
                else:
                    bad.append("slope")
                    continue
                if l > h:
                    continue
                if k2 == "throw":
                    bad.append("%s accepts [%d,%d] but %s rejects the result" % (names[0], l, h, names[1]))
                elif v2 is None or (v2[0] * a, v2[0] * b + v2[1]) != (1, 0):
                    if l == h and v2 is not None and v2[0] * (a * l + b) + v2[1] == l:
                        continue
                    bad.append("%s(%s(x)) != x on [%d,%d]" % (names[1], names[0], l, h))
    compose(down, up, ("narrowing", "widening"))
    compose(up, down, ("widening", "narrowing"))
    return bad
