"""Finite value-set dataflow: which constants (globals whose address is taken, enumerators, integers)
a tracked variable may hold at a program point; refined at ==/!= branches, joined by union."""
import model, cfg


def strip(e):
    e = model.strip(e)
    while e is not None and e.get("k") == "Construct" and len(e.get("args", ())) == 1:
        e = model.strip(e["args"][0])
    return e


def addr_of(e):
    """name of the global whose address e is"""
    e = strip(e)
    if e.get("k") == "Un" and e["op"] == "&":
        r = strip(e["e"])
        if r.get("k") == "Ref" and r.get("dk") == "global":
            return r["n"]
    return None


class VSets:
    def __init__(self, B, terms, start=None, derived=None):
        """terms: {name: (universe frozenset, match(expr)->bool, const(expr)->value or None)}
        derived: {name: (match(expr)->bool, {term value: derived value}, of term, const)}"""
        self.B = B
        self.terms = terms
        self.derived = derived or {}
        self.at = {}
        st0 = {t: u[0] for t, u in terms.items()}
        if start:
            st0.update(start)
        self.at[B.entry.i] = st0
        todo = [B.entry.i]
        while todo:
            i = todo.pop()
            st = self.at[i]
            n = B.nodes[i]
            out = self.event(n, st)
            succ = list(n.succ)
            for s, l in succ:
                o = out
                if n.kind == "br":
                    o = self.refine(n.ast, l is True, out)
                    if o is None:
                        continue
                self.flow(s, o, todo)
            if n.exc is not None:
                self.flow(n.exc, st, todo)

    def flow(self, s, o, todo):
        old = self.at.get(s)
        if old is None:
            self.at[s] = dict(o)
            todo.append(s)
            return
        new = {t: old[t] | o[t] for t in old}
        if new != old:
            self.at[s] = new
            todo.append(s)

    def match(self, e):
        e = strip(e)
        for t, (u, m, c) in self.terms.items():
            if m(e):
                return t
        return None

    def event(self, n, st):
        e = n.ast
        if n.kind != "ev" or e is None:
            return st
        dst = src = None
        if e.get("k") == "Bin" and e["op"] == "=":
            dst, src = e["a"], e["b"]
        elif e.get("k") == "Call" and e.get("op") == "=" and len(e.get("args", ())) == 2:
            dst, src = e["args"]
        elif e.get("k") == "Var" and e.get("init") is not None:
            dst, src = {"k": "Ref", "id": e["id"], "n": e["n"], "t": e["t"], "dk": "local"}, e["init"]
        if dst is not None:
            t = self.match(dst)
            if t:
                u, m, c = self.terms[t]
                v = c(strip(src))
                s2 = self.match(src)
                st = dict(st)
                st[t] = frozenset([v]) if v is not None else st[s2] if s2 == t else u
            return st
        if e.get("k") == "Call":
            for a in e.get("args", ()):
                a = strip(a)
                if a.get("k") == "Un" and a["op"] == "&":
                    t = self.match(a["e"])
                    if t:
                        st = dict(st)
                        st[t] = self.terms[t][0]
        return st

    def refine(self, e, pol, st):
        e = strip(e)
        while e.get("k") == "Un" and e["op"] == "!":
            e, pol = strip(e["e"]), not pol
        op = e.get("op")
        if e.get("k") == "Bin":
            a, b = e["a"], e["b"]
        elif e.get("k") == "Call" and len(e.get("args", ())) == 2:
            a, b = e["args"]
        else:
            a = b = None
        if op in ("==", "!=") and a is not None:
            pol2 = pol if op == "==" else not pol
            for x, y in ((a, b), (b, a)):
                t = self.match(x)
                if t:
                    c = self.terms[t][2](strip(y))
                    if c is not None:
                        return self.cut(st, t, lambda v: (v == c) == pol2)
                for dn, (m, table, of, cc) in self.derived.items():
                    if m(strip(x)):
                        c = cc(strip(y))
                        if c is not None:
                            return self.cut(st, of, lambda v: (table.get(v) == c) == pol2)
        for dn, (m, table, of, cc) in self.derived.items():  # boolean valued
            if cc is None and m(e):
                return self.cut(st, of, lambda v: bool(table.get(v)) == pol)
        return st

    @staticmethod
    def cut(st, t, keep):
        n = frozenset(v for v in st[t] if keep(v))
        if not n:
            return None
        st = dict(st)
        st[t] = n
        return st
