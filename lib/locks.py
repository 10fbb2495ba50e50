"""Lock-set typestate over inlined control-flow graphs."""
import flow, effects, model
from flow import key, short, operands
from model import strip, walk

GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")


def is_mutex(t):
    t = (t or "").replace("const ", "")
    return t.startswith("std::") and "mutex" in t.split("<")[0]


def is_guard(t):
    return (t or "").startswith(GUARDS)


class Locks:
    """state: frozenset of (mutex key, owner) with owner 'raw' or the guard's variable id, plus an optional extra automaton state"""

    def __init__(self, P, B, extra0=None, extra=None):
        self.P, self.B, self.extra = P, B, extra
        self.guards = {}
        self.D = flow.defs(B)
        self.problems = {}
        for n in B.nodes:
            e = n.ast
            if e is not None and n.kind == "ev" and e.get("k") == "Var" and is_guard(e.get("t")) and e.get("init") is not None:
                ms = []
                for x in walk(e["init"]):
                    if x.get("k") in ("Ref", "Member") and is_mutex(x.get("t")):
                        k = key(x)
                        if k:
                            ms.append(k)
                deferred = any(w in str(x.get(z, "")) for x in walk(e["init"]) for w in ("defer_lock", "try_to_lock") for z in ("n", "t")) or \
                    any(x.get("k") in ("Ref", "Call") and any(w in x.get("t", "") for w in ("chrono::duration", "chrono::time_point")) for x in walk(e["init"]))
                self.guards[e["id"]] = (sorted(set(ms)), deferred)
        self.F = flow.Flow(B, (frozenset(), extra0), self.step)
        for s in self.F.states(B.exit):
            for m, o in s[0]:
                if o == "raw":
                    self.note(B.exit, "unlocked", m, "the lock is still held when the function returns")
        for s in self.F.states(B.excexit):
            for m, o in s[0]:
                self.note(B.excexit, "unlocked", m, "the lock is still held when an error leaves the function")

    def core(self, e, d=0):
        """the tested call of a condition and its polarity"""
        e, pol = strip(e), True
        while e is not None and d < 10:
            d += 1
            if e.get("k") == "Un" and e["op"] == "!":
                e, pol = strip(e["e"]), not pol
            elif e.get("k") == "Ref" and self.D.get(e.get("id")) is not None and e.get("t", "").replace("const ", "") == "bool":
                e = strip(self.D[e["id"]])
            else:
                break
        return e, pol

    def note(self, n, kind, m, text):
        self.problems.setdefault((n.i, kind, m), (n, kind, m, text))

    def acquire(self, n, H, ms, owner):
        for m in ms:
            if any(x == m for x, o in H):
                self.note(n, "relock", m, "the lock is taken while already held (self-deadlock)")
            H = H | {(m, owner)}
        return H

    def step(self, n, s, lab):
        H, X = s
        e = n.ast
        if lab in ("exc", "noreturn"):
            if lab == "exc" and not effects.call_may_throw(self.P, e):
                return None
            H2 = frozenset((m, o) for m, o in H if o == "raw")
            return (H2, X)
        if e is not None and n.kind == "ev":
            k = e.get("k")
            if k == "Var" and e["id"] in self.guards:
                ms, deferred = self.guards[e["id"]]
                if not deferred:
                    H = self.acquire(n, H, ms, e["id"])
            elif k == "ScopeEnd":
                H = frozenset((m, o) for m, o in H if o != e["id"])
            elif k == "Call" and short(e) in ("lock", "unlock", "try_lock") and operands(e):
                o = operands(e)[0]
                kk = key(o)
                if is_mutex(o.get("t")) and kk:
                    if short(e) == "lock":
                        H = self.acquire(n, H, [kk], "raw")
                    elif short(e) == "unlock":
                        if not any(m == kk for m, _ in H):
                            self.note(n, "unheld", kk, "unlock of a lock that is not held")
                        H = frozenset((m, w) for m, w in H if m != kk)
                elif kk in self.guards:
                    ms = self.guards[kk][0]
                    if short(e) == "lock":
                        H = self.acquire(n, H, ms, kk)
                    elif short(e) == "unlock":
                        H = frozenset((m, w) for m, w in H if w != kk)
        if e is not None and n.kind == "br" and lab in (True, False):
            c, pol = self.core(e)
            if c is not None and c.get("k") == "Call" and operands(c) and lab == pol:
                kk = key(operands(c)[0])
                if short(c) in ("try_lock", "try_lock_for", "try_lock_until") or short(c) in ("owns_lock", "operator bool") and kk in self.guards:
                    if kk in self.guards:
                        if not any(w == kk for m, w in H):
                            H = self.acquire(n, H, self.guards[kk][0], kk)
                    elif is_mutex(operands(c)[0].get("t")) and kk:
                        H = self.acquire(n, H, [kk], "raw")
            elif c is not None and c.get("k") == "Call" and operands(c) and lab != pol and short(c) in ("owns_lock", "operator bool") and key(operands(c)[0]) in self.guards:
                if any(w == key(operands(c)[0]) for m, w in H):
                    return None
        if self.extra:
            X = self.extra(n, H, X, lab)
            if X is None:
                return None
            if isinstance(X, list):
                return [(H, x) for x in X]
        return (H, X)

    def held(self, n):
        """mutexes held in every state reaching n"""
        sts = self.F.states(n)
        if not sts:
            return None
        r = None
        for s in sts:
            ms = {m for m, _ in s[0]}
            r = ms if r is None else r & ms
        return r


def uses_locks(f):
    return any(x.get("k") == "Call" and short(x) in ("lock", "unlock") and operands(x) and is_mutex(operands(x)[0].get("t")) or x.get("k") == "Var" and is_guard(
        x.get("t")) for x in model.fn_nodes(f))
