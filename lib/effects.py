"""Call graph, may-throw closure and simple write effects."""
import model
from model import strip, walk, fn_nodes
from flow import short, operands, key

THROWING_STD = {"at", "stoi", "stol", "stoul", "stoull", "stoll", "stof", "stod", "value"}


def direct_callees(P, f):
    out = set()
    for x in fn_nodes(f):
        k = x.get("k")
        if k == "Call":
            if x.get("virt"):
                out.update(g["key"] for g in P.callees(x))
            elif x.get("fn") in P.fns:
                out.add(x["fn"])
        if k in ("Construct", "New") and x.get("fn") in P.fns:
            out.add(x["fn"])
        if k == "Lambda":
            for y in x.get("fns") or [x.get("fn")]:
                if y in P.fns:
                    out.add(y)
        if k == "Ref" and x.get("dk") in ("fn", "func", "function") and x.get("fn") in P.fns:
            out.add(x["fn"])
    return out


def callgraph(P):
    if not hasattr(P, "_cg"):
        P._cg = {k: direct_callees(P, f) for k, f in P.fns.items()}
    return P._cg


def reach(P, roots, stop=lambda f: False):
    cg = callgraph(P)
    seen = set()
    st = list(roots)
    while st:
        k = st.pop()
        if k in seen or k not in P.fns:
            continue
        seen.add(k)
        if stop(P.fns[k]):
            continue
        st.extend(cg[k])
    return seen


def maythrow(P):
    """keys of first-party functions that may let an exception escape (allocation failure left out)"""
    if hasattr(P, "_mt"):
        return P._mt
    cg = callgraph(P)
    bad = set()
    for k, f in P.fns.items():
        if f["n"] in ("Error", "VError") or f["n"].startswith("logging::print"):
            if f["n"] in ("Error", "VError"):
                bad.add(k)
            continue
        for x in fn_nodes(f):
            if x.get("k") == "Throw" or x.get("k") == "Call" and (x.get("nr") or std_throws(x)):
                bad.add(k)
                break
    ch = True
    rev = {}
    for a, bs in cg.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    st = list(bad)
    while st:
        b = st.pop()
        for a in rev.get(b, ()):
            if a not in bad and not P.fns[a]["n"].startswith("logging::"):
                bad.add(a)
                st.append(a)
    P._mt = bad
    return bad


def std_throws(x):
    n = x.get("n", "")
    if n.startswith("std::filesystem::") and not any("error_code" in a.get("t", "") for a in x.get("args", ())) and short(x) in (
            "remove", "rename", "create_directories", "last_write_time", "copy", "copy_file", "file_size", "resize_file"):
        return True
    return n.startswith("std::") and short(x) in THROWING_STD


def call_may_throw(P, e):
    if e.get("k") == "Throw":
        return True
    if e.get("k") == "Call":
        if e.get("nr"):
            return True
        if std_throws(e):
            return True
        mt = maythrow(P)
        return any(g["key"] in mt for g in P.callees(e))
    if e.get("k") == "Construct":
        return e.get("fn") in maythrow(P)
    return False


ASG = ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%=")
MUT = {"push_back", "emplace_back", "clear", "resize", "insert", "emplace", "erase", "assign", "pop_back", "setall", "swap", "reset", "fill",
       "reserve", "shrink_to_fit", "append", "push", "pop", "merge", "operator=", "try_emplace", "insert_or_assign", "store", "fetch_add", "fetch_sub",
       "fetch_or", "exchange"}


def write_target(e):
    """lvalue expression written by this event, or None"""
    k = e.get("k")
    if k == "Bin" and e["op"] in ASG:
        return e["a"]
    if k == "Un" and e["op"] in ("++", "--", "p++", "p--"):
        return e["e"]
    if k == "Call":
        op = e.get("op")
        if op in ASG or op in ("++", "--"):
            o = operands(e)
            return o[0] if o else None
        if e.get("obj") is not None and short(e) in MUT:
            return e["obj"]
    return None


def members(e):
    """Member nodes on the access path of an lvalue (outermost first)"""
    out = []
    while e is not None:
        e = strip(e)
        k = e.get("k")
        if k == "Member":
            out.append(e)
            e = e.get("base")
        elif k == "Index":
            e = e["base"]
        elif k == "Un" and e["op"] in ("*", "&"):
            e = e["e"]
        elif k == "Call" and (e.get("op") in ("[]", "*", "->") or short(e) in ("at", "front", "back", "data", "get", "value", "begin", "operator[]")):
            o = operands(e)
            e = o[0] if o else None
        else:
            break
    return out


def root(e):
    while e is not None:
        e = strip(e)
        k = e.get("k")
        if k == "Member":
            if e.get("base") is None:
                return e
            e = e["base"]
        elif k == "Index":
            e = e["base"]
        elif k == "Un" and e["op"] in ("*", "&", "++", "--", "p++", "p--"):
            e = e["e"]
        elif k == "Bin" and e["op"] in ("+", "-") and e["a"].get("t", "").endswith("*"):
            e = e["a"]
        elif k == "Call" and (e.get("op") in ("[]", "*", "->") or short(e) in ("at", "front", "back", "data", "get", "value", "begin", "operator[]")):
            o = operands(e)
            e = o[0] if o else None
        else:
            return e
    return None
