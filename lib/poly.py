"""Rational functions over access paths: two expressions are the same formula iff their normal forms agree."""
from fractions import Fraction
import absint, cfg, flow
from model import strip


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


ONE = {(): Fraction(1)}


class Rat:
    def __init__(self, n, d=None):
        self.n, self.d = n, d or dict(ONE)

    def __add__(self, o):
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __sub__(self, o):
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d), -1), pmul(self.d, o.d))

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n))

    def neg(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def same(self, o):
        return pmul(self.n, o.d) == pmul(o.n, self.d)

    def atoms(self):
        return {x for p in (self.n, self.d) for m in p for x in m}

    def __repr__(self):
        f = lambda p: " + ".join("%s*%s" % (c, "*".join(m)) if m else str(c) for m, c in sorted(p.items())) or "0"
        return f(self.n) if self.d == ONE else "(%s)/(%s)" % (f(self.n), f(self.d))


def const(v):
    f = Fraction(v)
    return Rat({(): f} if f else {})


def atom(p):
    return Rat({(p,): Fraction(1)})


def build(e, leaf, depth=0):
    """leaf(e) -> Rat, expression to continue with, or None. Returns Rat or None."""
    if e is None or depth > 40:
        return None
    r = leaf(e)
    if isinstance(r, Rat):
        return r
    if isinstance(r, dict):
        return build(r, leaf, depth + 1)
    e = absint.deep(e)
    k = e.get("k")
    if k == "Float":
        return const(e["v"])
    c = cfg.cval(e)
    if c is not None:
        return const(c)
    o = None
    if k == "Bin" and e["op"] in ("+", "-", "*", "/"):
        o = (e["op"], e["a"], e["b"])
    elif k == "Call" and e.get("op") in ("+", "-", "*", "/") and len(flow.operands(e)) == 2:
        a, b = flow.operands(e)
        o = (e["op"], a, b)
    if o:
        a, b = build(o[1], leaf, depth + 1), build(o[2], leaf, depth + 1)
        if a is None or b is None:
            return None
        return {"+": a.__add__, "-": a.__sub__, "*": a.__mul__, "/": a.__truediv__}[o[0]](b)
    if k == "Un" and e["op"] in ("-", "+") or k == "Call" and e.get("op") in ("-", "+") and len(flow.operands(e)) == 1:
        x = e["e"] if k == "Un" else flow.operands(e)[0]
        r = build(x, leaf, depth + 1)
        return r and (r.neg() if e["op"] == "-" else r)
    return None
