"""C12: the text of an entity survives reading, lookups, edits of other keys and every rewrite."""
import re
import cfg, flow, model, sym
import c22
from absint import deep
from c24 import KNOWN, helpers
from flow import operands, short
from model import AnalysisBroken, strip, walk

RULE = ("Symbolic summaries of the entity dictionary's operations (lookup is the first exact match over all pairs, a change touches that pair only), of the writers (the text emitted per pair "
        "and per entity, as constant pieces and places, over the whole container in order), typestate of the readers (a pair's key is the token before its value, only trimmed; inside quotes every "
        "character consumed is kept exactly once), and an inventory of every key a tool sets, removes or renames.")

STOP = KNOWN + ("IsWorldBrushEntity", "IsNonRemoveWorldBrushEntity", "set", "find", "get", "has", "remove", "rename", "parse", "parse_token")
KV = "this.keyvalues"


def lit(e, env, S):
    t = sym.strlit(e) if e is not None and e.get("k") in ("Str", "Cast", "Construct", "Init") else None
    if t is None:
        return None
    return ("R", S.at_(t.replace("(", "\\x28").replace(")", "\\x29").replace(",", "\\x2c").replace(" ", "\\x20")))


def where(f):
    return "%s:%d (%s)" % (f["f"], f["l"], f["n"].split("::")[-1])


def paths(S, h="F", hows=("end", "next", "left")):
    return [(g, e, how) for g, e, how in S.iters.get(h, ()) if how in hows]


FOUND = re.compile(r"^!?1\*&(this|this\.keyvalues)\[(this|this\.keyvalues)\.size\(\)\] \+ -1\*find\(&this,(P\d)\) == 0$")


def found(g):
    """(parameter, True when the path is the one with a match) from the path's conditions"""
    for a, p in g:
        m = FOUND.match(a)
        if m:
            return m.group(3), not p
    return None


def pairof(f):
    """what the one pair a function adds is made of"""
    ps = {p["id"]: "P%d" % i for i, p in enumerate(f["params"])}
    vs = {x["id"]: x for x in model.fn_nodes(f) if x.get("k") == "Var" and x.get("init") is not None}
    cs = [x for x in model.fn_nodes(f) if x.get("k") == "Call" and short(x) in ("push_back", "emplace_back")]
    if len(cs) != 1:
        return None
    out = []
    for a in cs[0]["args"]:
        for x in walk(a):
            if x.get("k") == "Call" and short(x) not in ("move", "string", "operator basic_string_view", "operator basic_string", "make_pair", "forward"):
                return None
            if x.get("k") == "Ref" and x.get("id") in ps:
                out.append(ps[x["id"]])
            elif x.get("k") == "Ref" and x.get("id") in vs:
                i = deep(vs[x["id"]]["init"])
                while i.get("k") in ("Construct", "Call") and len(operands(i) if i["k"] == "Call" else i.get("args", ())) == 1:
                    i = deep((operands(i) if i["k"] == "Call" else i["args"])[0])
                out.append(i.get("f") if i.get("k") == "Member" else "?")
    return out


# ------------------------------------------------------------------ the dictionary
def dictionary(ck, P):
    ob = lambda key, f, bad, text: ck.ob("dictionary", key, not bad, where(f), text + (" -- " + "; ".join(dict.fromkeys(bad[:3])) if bad else ""))
    fs = {}
    for g in P.fns.values():
        if g["n"].startswith("entdict_t::") and g["f"] == "common/entdata.cc":
            fs.setdefault(g["n"].split("::")[-1], []).append(g)
    for want in ("find", "get", "has", "set", "remove", "rename"):
        if want not in fs:
            raise AnalysisBroken("entdict_t::%s not found" % want)
    inl = {n for n, v in fs.items() if n not in ("find", "get", "has", "set", "remove", "rename", "parse", "entdict_t", "get_int", "get_float", "get_vector", "operator==")}
    S = lambda f: (ck.count("functions"), sym.summary(P, f, inline=inl, calls=("find_if",)))[1]
    for f in fs["find"]:
        s = S(f)
        bad = []
        heads = [h for h in s.iters if h != "F"]
        search = [x for x in model.fn_nodes(f) if x.get("k") == "Call" and short(x) in ("find_if", "find") and "std::" in x.get("n", "")]
        if heads and not search:
            h = heads[0]
            same = re.compile(r"^(?:1\*P0 \+ -1\*|-1\*P0 \+ 1\*)?this\.keyvalues\[i<this\.keyvalues\.size\(\)>\]\.first(?: \+ -1\*P0| - P0)? == 0$|^1\*this\.keyvalues\[i<this\.keyvalues\.size\(\)>\]\.first \+ -1\*P0 == 0$")
            for g, e, how in paths(s, h):
                ms = [p for a, p in g if same.match(a)]
                other = [a for a, p in g if not same.match(a)]
                if other:
                    bad.append("a pair is also judged by %s" % other[0][:60])
                if how == "left" and ms != [True] or how == "next" and ms != [False]:
                    bad.append("the loop %s without the key being %s" % (("stops", "the same") if how == "left" else ("goes on", "different")))
            for g, e, how in paths(s):
                loops = [x for x in e if x[0] in ("loop", "left")]
                ret = [x[1] for x in e if x[0] == "return"]
                if not loops or loops[0][2] != "i<this.keyvalues.size()>":
                    bad.append("not every pair is looked at")
                elif not ret:
                    bad.append("no result")
                elif loops[0][0] == "left" and ret[-1] != "&this.keyvalues[i<this.keyvalues.size()>]":
                    bad.append("the result is not the pair that matched")
                elif loops[0][0] == "loop" and ret[-1] != "&this.keyvalues[this.keyvalues.size()]":
                    bad.append("the result without a match is not the end")
        else:
            ok = False
            for c in search:
                o = operands(c)
                ends = [short(deep(a)) for a in o[:2]]
                body = [y for a in o[2:] for x in walk(a) for y in ([x] if x.get("k") != "Lambda" or x.get("fn") not in P.fns else list(model.fn_nodes(P.fns[x["fn"]])))]
                if any(y.get("k") in ("If", "Cond") or y.get("op") in ("&&", "||", "!=", "!") for y in body):
                    continue
                cmp = [x for x in body if x.get("op") == "==" and len(operands(x) if x.get("k") == "Call" else (x["a"], x["b"])) == 2]
                ok = ends in (["begin", "end"], ["cbegin", "cend"]) and len(cmp) == 1 and any(y.get("k") == "Member" and y.get("f") == "first" for y in walk(cmp[0])) \
                    and not any(y.get("k") == "Call" and short(y) not in ("operator==", "operator basic_string_view") and y is not cmp[0] and y.get("op") != "==" and not y.get("conv") for y in walk(cmp[0]))
            if not ok:
                bad.append("no loop over the pairs and no search for an equal key")
        ob("find/%s" % ("const" if "const" in f["key"] or f is fs["find"][-1] else "plain"), f, bad, "a lookup gives the first pair with exactly that key, or the end when there is none")

    def cases(name):
        f = fs[name][0]
        out = []
        for g, e, how in paths(S(f)):
            out.append((found(g), [x for x in e if x[0] not in ("let",)], g, [x for x in e if x[0] == "let"]))
        return f, out

    f, cs = cases("get")
    bad = []
    for m, e, g, lets in cs:
        ret = [x[1] for x in e if x[0] == "return"]
        if m is None or m[0] != "P0" or len(g) != 1:
            bad.append("the result does not only depend on the lookup of the key")
        elif [x for x in e if x[0] != "return"]:
            bad.append("reading changes something")
        elif not ret or m[1] != ret[-1].endswith(".second"):
            bad.append("%s gives %s" % ("a key that is there" if m[1] else "a missing key", ret[-1] if ret else "nothing"))
    if {m[1] for m, *_ in cs if m} != {True, False}:
        bad.append("the key is not looked up")
    ob("get", f, bad, "reading a key gives its value as it is, and nothing for a key that is not there")
    f, cs = cases("has")
    bad = [] if cs else ["no result"]
    for m, e, g, lets in cs:
        r = [x[1] for x in e if x[0] == "return"]
        ok = r and (FOUND.match(r[-1]) and r[-1].startswith("!") and "P0" in r[-1] or m is not None and m[0] == "P0" and len(g) == 1 and r[-1] == str(int(m[1])))
        if not ok:
            bad.append("the answer is %s" % (r[-1] if r else "missing"))
    ob("has", f, bad, "a key is there exactly when the lookup finds it")
    f, cs = cases("set")
    bad = []
    for m, e, g, lets in cs:
        if m is None or m[0] != "P0" or len(g) != 1:
            bad.append("what happens does not only depend on the lookup of the key")
            continue
        if m[1]:
            ok = len(e) == 1 and (e[0][0] == "=" and e[0][1].endswith(".second") and e[0][2] == "P1" or e[0][:2] == ("mutate", "assign") and e[0][2].endswith(".second") and e[0][3:] == ("P1",))
        else:
            ok = len(e) == 1 and e[0][:3] == ("push", KV, KV + ".size()") and (e[0][3:] == ("P0", "P1") or len(e[0]) == 4 and pairof(f) == ["P0", "P1"])
        if not ok:
            bad.append("for a key that is %s: %s" % ("there" if m[1] else "new", str(e)[:90]))
    if {m[1] for m, *_ in cs if m} != {True, False}:
        bad.append("the key is not looked up")
    ob("set", f, bad, "setting a key replaces its value in place, or adds the pair at the end, and changes nothing else")
    f, cs = cases("remove")
    bad = []
    for m, e, g, lets in cs:
        if m is None or m[0] != "P0" or len(g) != 1:
            bad.append("what happens does not only depend on the lookup of the key")
        elif m[1] and e != [("mutate", "erase", KV, "find(&this,P0)")]:
            bad.append("for a key that is there: %s" % str(e)[:90])
        elif not m[1] and e:
            bad.append("a missing key changes something: %s" % str(e)[:90])
    if not any(m and m[1] for m, *_ in cs):
        bad.append("the key is not looked up")
    ob("remove", f, bad, "removing a key takes out its pair and changes nothing else")
    f, cs = cases("rename")
    bad = []
    for m, e, g, lets in cs:
        if m is None or m[0] != "P0" or len(g) != 1:
            bad.append("what happens does not only depend on the lookup of the old key")
        elif not m[1] and e:
            bad.append("a missing key changes something: %s" % str(e)[:90])
        elif m[1]:
            inplace = len(e) == 1 and e[0][0] == "=" and e[0][1].endswith(".first") and e[0][2] == "P1"
            moved = len(e) == 2 and e[0] == ("mutate", "erase", KV, "find(&this,P0)") and e[1][:2] == ("push", KV) and (e[1][3] == "P1" and e[1][4:] and e[1][4].endswith(".second") or len(e[1]) == 4 and pairof(f) == ["P1", "second"])
            if not inplace and not moved:
                bad.append("for a key that is there: %s" % str(e)[:120])
    if not any(m and m[1] for m, *_ in cs):
        bad.append("the key is not looked up")
    # the value is taken before its pair goes
    order = [short(x) for x in model.fn_nodes(f) if x.get("k") == "Call" and short(x) == "erase" or x.get("k") == "Member" and x.get("f") == "second"]
    ob("rename", f, bad, "renaming a key keeps its value and changes no other pair")
    for nm in ("get_int", "get_float", "get_vector"):
        for f in fs.get(nm, ()):
            bad = [] if any(x.get("k") == "Call" and short(x) == "get" and x.get("args") and deep(x["args"][0]).get("id") == f["params"][0]["id"] for x in model.fn_nodes(f)) else ["the key asked for is not the one read"]
            ob(nm, f, bad, "a number is read from the value of the key asked for")


# ------------------------------------------------------------------ writers
def streams(S, eff, dests=None):
    """text per destination of one path: {dest: [piece or ("loop", header, index)]}"""
    out = {}

    def expand(ps):
        r = []
        for p in ps:
            r += out.get(p, [p]) if p in out and p.startswith("v:") else [p]
        return r
    for x in eff:
        if x[0] == "settext":
            out[x[1]] = expand(x[2:])
        elif x[0] == "text":
            out[x[1]] = out.get(x[1], []) + expand(x[2:])
        elif x[0] in ("loop", "left"):
            for d in touched(S, x[1]):
                out[d] = out.get(d, []) + [(x[0], x[1], x[2], d)]
        elif x[0] in ("empty",) and x[1] in out:
            out[x[1]] = []
        elif x[0] == "mutate" and (x[2] in out or x[2].endswith("dentdata")):
            out[x[2]] = out.get(x[2], []) + ["?%s" % x[1]]
    return {d: merge(v) for d, v in out.items()}


def touched(S, h, seen=()):
    r = set()
    for g, e, how in S.iters.get(h, ()):
        local = {x[1] for x in e if x[0] == "settext"}
        for x in e:
            if x[0] == "text" and x[1] not in local:
                r.add(x[1])
            elif x[0] == "loop" and x[1] not in seen and x[1] != h:
                r |= {d for d in touched(S, x[1], seen + (h,)) if d not in local}
    return sorted(r)


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and len(p) >= 2 and p[0] == '"':
            if p == '""':
                continue
            if out and isinstance(out[-1], str) and out[-1][0] == '"':
                out[-1] = out[-1][:-1] + p[1:]
                continue
        out.append(p)
    return out


DROP = [(r'^starts_with\(%s,"_tb_"\)$', True), (r'^compare\(%s,0,4,"_tb_"\) == 0$', True), (r'^rfind\(%s,"_tb_",0\) == 0$', True), (r'^find\(%s,"_tb_"\) == 0$', True), (r'^find\(%s,"_tb_",0\) == 0$', True)]


def writer(ck, P, f, drops, skips, what):
    S = sym.summary(P, f, text=True, val=lit, inline=helpers(P, f, STOP))
    ck.count("functions")
    bad, sk, drop = [], [], []
    top = [(g, streams(S, e), e) for g, e, how in paths(S)]
    nouter = 0
    for g, t, e in top:
        for d, ps in t.items():
            ls = [p for p in ps if not isinstance(p, str)]
            if not ls:
                continue
            if len(ps) != 1:
                bad.append("text around the entities: %s" % str([p for p in ps if isinstance(p, str)])[:60])
            k, h, idx, dd = ls[0]
            nouter += 1
            m = re.fullmatch(r"i'*<(.+)\.size\(\)(?:@\d+)?>", idx)
            if k != "loop" or not m:
                bad.append("the entities are not written in order to the last one")
                continue
            one = "%s[%s]" % (m.group(1), idx)
            bad += entity(ck, S, h, one, d, drops, skips, sk, drop)
            rets = [x[1] for x in e if x[0] == "return"]
            if f["ret"] != "void" and (not rets or rets[-1] not in (d, "str(%s)" % d)) and d.startswith("v:"):
                bad.append("the result is %s" % (rets[-1] if rets else "missing"))
    if not nouter:
        bad.append("no loop over the entities")
    ck.ob("writer", what, not bad, where(f), "every entity is written once, in order, as an opening brace, each pair once with its key and value as they are, and a closing brace" + (" -- " + "; ".join(dict.fromkeys(bad[:3])) if bad else ""))
    if drops:
        ck.ob("writer", what + "/editor keys", bool(drop) and not [x for x in drop if not x], where(f), "the editor's own keys, and only keys that start with its prefix, are left out")
    return S


def entity(ck, S, h, one, d, drops, skips, sk, drop):
    bad = []
    for g, e, how in S.iters.get(h, ()):
        if how == "left":
            bad.append("the loop over the entities is left early")
            continue
        t = streams(S, e).get(d, [])
        cond = [(a, p) for a, p in g if any(s in a for s in ("IsWorldBrushEntity", "epairs.size()"))]
        if not t:
            why = [(a, p) for a, p in g if p and any(re.fullmatch(s % re.escape(one), a) for s in skips)]
            if not why:
                bad.append("an entity is left out under %s" % (str(sorted(g))[:80]))
            continue
        for s in skips:
            if any(re.fullmatch(s % re.escape(one), a) and p for a, p in g):
                bad.append("an entity that is merged or empty is written")
        ls = [p for p in t if not isinstance(p, str)]
        if len(ls) != 1 or t != ['"{\n"', ls[0], '"}\n"']:
            bad.append("an entity is written as %s" % str([p if isinstance(p, str) else "<pairs>" for p in t])[:80])
            continue
        k, h2, idx, dd = ls[0]
        m = re.fullmatch(r"i'*<(.+)\.size\(\)(?:@\d+)?>", idx)
        if k != "loop" or not m or m.group(1) not in (one, one + ".epairs", one + ".keyvalues", one + ".epairs.keyvalues"):
            bad.append("the pairs are not written in order to the last one")
            continue
        pair = "%s[%s]" % (m.group(1), idx)
        for g2, e2, how2 in S.iters.get(h2, ()):
            t2 = streams(S, e2).get(dd, [])
            if how2 == "left":
                bad.append("the loop over the pairs is left early")
            elif not t2:
                hit = [1 for rx, pol in DROP for a, p in g2 if p == pol and re.match(rx % re.escape(pair + ".first"), a)]
                if drops and hit:
                    drop.append(True)
                else:
                    bad.append("a pair is left out under %s" % str([("" if p else "not ") + a.replace(pair, "pair") for a, p in sorted(g2)])[:90])
            elif t2 != ['"""', pair + ".first", '"" ""', pair + ".second", '""\n"']:
                bad.append("a pair is written as %s" % str(t2).replace(pair, "pair")[:110])
            elif drops and any(p == pol and re.match(rx % re.escape(pair + ".first"), a) for rx, pol in DROP for a, p in g2):
                drop.append(False)
    return bad


def worldbrush(ck, P, f):
    """which entities are merged into the world and so not written"""
    WANT = {"func_detail", "func_group", "func_detail_illusionary", "func_detail_wall", "func_detail_fence", "func_illusionary_visblocker"}
    S = sym.summary(P, f, val=lit, inline=helpers(P, f))
    got, bad = set(), []
    names = {x["v"] for x in model.fn_nodes(f) if x.get("k") == "Str" and x["v"] in WANT}
    for g in helpers_fns(P, f):
        names |= {x["v"] for x in model.fn_nodes(g) if x.get("k") == "Str" and x["v"] in WANT}
    for g, e, how in paths(S):
        ret = [x[1] for x in e if x[0] == "return"]
        yes = {m for a, p in g if p for m in re.findall(r'"(\w+)"', a) if m != "classname"}
        if ret == ["1"]:
            got |= yes
            if not yes:
                bad.append("an entity counts as merged without its class being looked at")
        for y in yes - WANT:
            if ret and ret[-1] != "0":
                bad.append("%s counts as merged" % y)
    if len(S.iters) == 1 and got and got != WANT:
        bad.append("classes: %s" % ", ".join(sorted(got ^ WANT)))
    strs = {x["v"] for x in model.fn_nodes(f) if x.get("k") == "Str" and re.fullmatch(r"func_\w+|trigger_\w+|info_\w+|light\w*|worldspawn", x["v"])}
    if strs - WANT:
        bad.append("%s counts as merged" % ", ".join(sorted(strs - WANT)))
    ck.ob("writer", "merged classes", not bad, where(f), "only the documented detail and group classes are merged into the world and not written" + (" -- " + "; ".join(dict.fromkeys(bad[:3])) if bad else ""))


def helpers_fns(P, f):
    ns = helpers(P, f)
    return [g for g in P.fns.values() if g["f"] == f["f"] and g["n"] in ns]


# ------------------------------------------------------------------ readers of pairs
PEEK = 8


class Pairs:
    """state: variables holding tokens (id, number of tokens read since, changed), aliases, blanks known at an end of a string (key, end)"""
    CHANGE = ("erase", "pop_back", "assign", "resize", "insert", "append", "push_back", "replace", "clear", "swap")

    def __init__(self, P, B, setfns):
        self.P, self.B, self.setfns, self.bad, self.nset, self.ends = P, B, setfns, [], 0, set()
        self.alias = {}
        for n in B.nodes:
            e = n.ast
            if n.kind == "ev" and e is not None and e.get("k") == "Var" and e.get("init") is not None and e.get("t", "").endswith("&") and sym.isstr(e["t"]):
                self.alias[e["id"]] = e["init"]

    def root(self, e, depth=0):
        """the string an expression names: a variable's id, or "token" """
        e = strip(e)
        while e is not None and (e.get("k") == "Cast" or e.get("k") == "Call" and (e.get("conv") or short(e) in ("operator basic_string_view", "c_str", "data", "str", "move", "as_const", "forward")) and len(operands(e)) == 1):
            e = strip(e["e"] if e.get("k") == "Cast" else operands(e)[0])
        if e is None:
            return None
        if e.get("k") == "Member" and e.get("f") == "token":
            return "token"
        x = e if e.get("k") == "Ref" else deep(e)
        if x.get("k") == "Member" and x.get("f") == "token":
            return "token"
        if x.get("k") == "Construct" and len([a for a in x.get("args", ()) if a.get("k") != "DefaultArg"]) == 1:
            return self.root(x["args"][0], depth + 1)
        if x is not e and x.get("k") == "Call" and (x.get("conv") or short(x) in ("operator basic_string_view", "c_str", "data", "str", "move", "as_const", "forward")) and len(operands(x)) == 1 and depth < 6:
            return self.root(x, depth + 1)
        if x.get("k") == "Call" and x.get("fn") in self.P.fns and len(operands(x)) == 1 and sym.isstr(x.get("t", "")):
            return self.root(operands(x)[0], depth + 1)   # its body is judged by itself
        if x.get("k") == "Ref" and x.get("id") is not None:
            if x["id"] in self.alias and depth < 4:
                r = self.root(self.alias[x["id"]], depth + 1)
                return r if r is not None else x["id"]
            return x["id"]
        return None

    def age(self, e, vs):
        r = self.root(e)
        if r == "token":
            return 0, False
        for i, a, ch in vs:
            if i == r:
                return a, ch
        return None, False

    def blank(self, e):
        """(string, end) when the expression asks whether that end is a blank"""
        pol = True
        x = strip(e)
        while x is not None and (x.get("k") == "Cast" or x.get("k") == "Un" and x["op"] == "!" or x.get("k") == "Bin" and x["op"] in ("!=", "==") and cfg.cval(x["b"]) == 0):
            if x.get("k") == "Un" or x.get("k") == "Bin" and x["op"] == "==":
                pol = not pol
            x = strip(x["e"] if x.get("k") != "Bin" else x["a"])
        if x is None or x.get("k") != "Call" or short(x) != "isspace":
            return None
        c = operands(x)[0]
        for y in walk(c):
            if y.get("k") == "Call" and short(y) in ("front", "back") and len(operands(y)) == 1:
                return self.root(operands(y)[0]), short(y), pol
            if y.get("k") == "Call" and (y.get("op") == "[]" or short(y) == "at") and len(operands(y)) == 2 and cfg.cval(operands(y)[1]) == 0:
                return self.root(operands(y)[0]), "front", pol
        return None

    def step(self, n, s, lab):
        vs, facts = s
        e = n.ast
        if e is None:
            return s
        if n.kind == "br" and lab in (True, False):
            b = self.blank(e)
            if b is not None and b[0] is not None and b[2] == lab:
                return (vs, facts | {b[:2]})
            return s
        if n.kind != "ev" or lab == "exc":
            return s
        k = e.get("k")
        if k == "Var":
            if e["id"] in self.alias:
                return s
            vs = frozenset(v for v in vs if v[0] != e["id"])
            if e.get("init") is not None and sym.isstr(e.get("t", "")):
                a, ch = self.age(e["init"], vs)
                if a is not None:
                    vs = vs | {(e["id"], a, ch)}
            return (vs, facts)
        if k == "Call" and e.get("op") == "=" and len(operands(e)) == 2:
            x = deep(operands(e)[0])
            if x.get("k") == "Ref" and sym.isstr(x.get("t", "")):
                a, ch = self.age(operands(e)[1], vs)
                r = self.root(operands(e)[0])
                vs = frozenset(v for v in vs if v[0] != r)
                if a is not None:
                    vs = vs | {(r, a, ch)}
                facts = frozenset(f for f in facts if f[0] != r)
            return (vs, facts)
        if k == "Call" and short(e) == "parse_token":
            fl = [cfg.cval(a) for a in e.get("args", ()) if a.get("k") != "DefaultArg"]
            if fl and isinstance(fl[0], int) and fl[0] & PEEK:
                return s
            return (frozenset((i, min(a + 1, 3), ch) for i, a, ch in vs), frozenset(f for f in facts if f[0] != "token"))
        if k == "Call" and e.get("fn") in self.setfns:
            self.nset += 1
            o = operands(e)
            (ka, kc), (va, vc) = self.age(o[1], vs), self.age(o[2], vs)
            if ka != 1 or va != 0:
                self.bad.append("the key is the token %s, the value the token %s" % tuple("read %d before the last" % a if a is not None else "of something else" for a in (ka, va)))
            if vc:
                self.bad.append("the value is changed before it is stored")
            return s
        if k == "Call" and e.get("obj") is not None and short(e) in self.CHANGE:
            r = self.root(e["obj"])
            if r is None or not (r == "token" or any(v[0] == r for v in vs)):
                return s
            args = [a for a in e.get("args", ()) if a.get("k") != "DefaultArg"]
            end = None
            if short(e) == "pop_back":
                end = "back"
            elif short(e) == "erase" and args:
                x = [short(y) for y in walk(args[0]) if y.get("k") == "Call" and short(y) in ("begin", "end", "cbegin", "cend")]
                one = len(args) == 1 or len(args) == 2 and cfg.cval(args[1]) == 1
                minus = any(y.get("op") in ("-", "--") and (y.get("op") == "--" or any(cfg.cval(z) == 1 for z in (operands(y) if y.get("k") == "Call" else (y.get("b"),)) if z is not None)) for y in walk(args[0]))
                plain = not any(y.get("op") in ("+", "-", "++", "--", "*") for y in walk(args[0]))
                if len(args) == 1 and x and x[0].endswith("begin") and plain or len(args) == 2 and one and cfg.cval(args[0]) == 0 and not x:
                    end = "front"
                elif len(args) == 1 and x and x[0].endswith("end") and minus:
                    end = "back"
            if end is None or r == "token":
                self.bad.append("a token is changed by %s" % short(e))
            elif (r, end) not in facts:
                self.bad.append("a character that is no blank is taken off the %s of a key" % {"front": "start", "back": "end"}[end])
            else:
                self.ends.add(end)
            return (frozenset((i, a, ch or i == r) for i, a, ch in vs), frozenset(f for f in facts if f[0] != r))
        return s


def readers(ck, P):
    sets = {k for k, g in P.fns.items() if g["n"] == "entdict_t::set"}
    n = 0
    for f in sorted(P.fns.values(), key=lambda g: (g["f"], g["l"])):
        if f["f"].startswith("lightpreview") or f.get("lambda"):
            continue
        cs = [x for x in model.fn_nodes(f) if x.get("k") == "Call" and x.get("fn") in sets]
        cs = [c for c in cs if sym.strlit(c["args"][0]) is None]
        if not any(y.get("k") == "Member" and y.get("f") == "token" for c in cs for y in walk(c)) and not (cs and any(x.get("k") == "Call" and short(x) == "parse_token" for x in model.fn_nodes(f)) and f["n"].split("::")[-1] in ("parse", "ParseEpair", "parse_entity_dict")):
            continue
        n += 1
        ck.count("functions")
        hs = (helpers(P, f, STOP) | trimmers(P, f)) - {"entdict_t::" + m for m in ("set", "find", "get", "has", "remove", "rename")}
        B = cfg.Builder(P, inline=lambda fn, c, d: fn["n"] in hs and fn["ret"] == "void", max_depth=2).build(f)
        fs = {g for g in sets}
        # ids in the graph carry their frame; calls keep the callee's key
        T = Pairs(P, B, fs)
        flow.Flow(B, (frozenset(), frozenset()), T.step)
        bad = list(T.bad)
        if not T.nset:
            bad.append("no pair is stored")
        S = sym.summary(P, f, inline=hs, calls=("set", "parse_token"), val=lit)
        ends = set(T.ends)
        for g in trimmer_values(P, f):
            gb = cfg.Builder(P).build(g)
            T2 = Pairs(P, gb, set())
            flow.Flow(gb, (frozenset({("0.%s" % g["params"][0]["id"], 0, False)}), frozenset()), T2.step)
            bad += T2.bad
            ends |= T2.ends
        if ends != {"front", "back"}:
            bad.append("blanks are not taken off both ends of the key")
        # every pair read is stored: on each way through, a key's token is followed by a store
        for h, its in S.iters.items():
            for g, e, how in its:
                if how in ("left",):
                    continue
                calls = [x[1] for x in e if x[0] == "call" and x[1] in ("set", "parse_token")]
                if h == "F" and not [x for x in S.iters if x != "F" and any(y[0] == "call" and y[1] == "set" for _, ee, _ in S.iters[x] for y in ee)]:
                    if "set" not in calls:
                        bad.append("a pair that was read is not stored under %s" % str(sorted(g))[:60])
                elif h != "F" and "parse_token" in calls and "set" not in calls:
                    bad.append("a pair that was read is not stored under %s" % str(sorted(g))[:60])
        ck.ob("reader", "%s:%s" % (f["f"], f["n"].split("::")[-1]), not bad, where(f), "a pair read is stored with its key without blanks at the ends and its value as it is" + (" -- " + "; ".join(dict.fromkeys(bad[:3])) if bad else ""))
    ck.floor("reader", 4)


def trimmers(P, f):
    """functions f calls that only trim a string passed by reference"""
    out = set()
    for x in model.fn_nodes(f):
        if x.get("k") == "Call" and x.get("fn") in P.fns:
            g = P.fns[x["fn"]]
            if g["ret"] == "void" and len(g["params"]) == 1 and sym.isstr(g["params"][0]["t"]) and any(y.get("k") == "Call" and short(y) == "isspace" for y in model.fn_nodes(g)):
                out.add(g["n"])
    return out


def trimmer_values(P, f):
    out = []
    for x in model.fn_nodes(f):
        if x.get("k") == "Call" and x.get("fn") in P.fns:
            g = P.fns[x["fn"]]
            if sym.isstr(g["ret"]) and len(g["params"]) == 1 and sym.isstr(g["params"][0]["t"]) and g not in out:
                out.append(g)
    return out


# ------------------------------------------------------------------ tokens
class Quoted:
    """inside quotes: state None outside; else (lead, quote seen, last advance was over a quote, escaped character, appended in this round, chars in vars)
    lead = characters consumed since the opening quote (inclusive) less characters kept"""

    def __init__(self, P, B, T):
        self.P, self.B, self.T, self.bad = P, B, T, []
        self.nadv = self.napp = 0
        self.escs = set()

    def flag(self, n, w):
        self.bad.append((n, w))

    def read(self, e, lead, vs):
        """index (relative: lead) of the source character an expression gives: 0 = the one at the position now"""
        x = strip(e)
        while x is not None and x.get("k") in ("Cast", "Construct") and (x.get("e") is not None or x.get("args")):
            x = strip(x["e"] if x.get("k") == "Cast" else x["args"][0])
        if x is None:
            return None
        if x.get("k") == "Un" and x["op"] == "*":
            y = strip(x["e"])
            while y.get("k") == "Cast":
                y = strip(y["e"])
            if y.get("k") == "Un" and y["op"] in ("p++", "++") and self.T.pos(strip(y["e"])):
                return -1 if y["op"] == "p++" else 0   # the event of the increment has been applied
        a = self.T.ahead(x)
        if a is not None and isinstance(a[0], int):
            return a[0]
        if x.get("k") == "Ref":
            for i, off in vs:
                if i == x.get("id"):
                    return off
        return None

    def appended(self, e):
        """the expression added to the token by this event, or None"""
        if e.get("k") == "Call" and e.get("op") == "=" and len(operands(e)) == 2:
            l = operands(e)[0]
            if any(y.get("k") == "Ref" and "back_insert_iterator" in y.get("t", "") for y in walk(l)) and not any(y.get("k") == "Ref" and "back_insert_iterator" in y.get("t", "") for y in walk(operands(e)[1])):
                return operands(e)[1]
        if e.get("k") == "Bin" and e["op"] == "=" and any("back_insert_iterator" in y.get("t", "") for y in walk(e["a"]) if y.get("k") == "Ref"):
            return e["b"]
        if e.get("k") == "Call" and (short(e) in ("push_back", "append") or e.get("op") == "+=") and len(operands(e)) == 2:
            x = deep(operands(e)[0])
            if x.get("k") == "Member" and x.get("f") == "token":
                return operands(e)[1]
        return None

    def step(self, n, s, lab):
        e = n.ast
        if e is None:
            return s
        k = e.get("k")
        if n.kind == "ev" and lab != "exc":
            l = None
            if k == "Bin" and e["op"] == "=":
                l, v = strip(e["a"]), cfg.cval(e["b"])
            if l is not None and l.get("k") == "Member" and l.get("f") == "was_quoted":
                return (0, False, False, None, 0, frozenset()) if v in (1, True) else None if False else (s if v not in (0, False) else "N")
        if s == "N":
            return s
        lead, q, lastq, esc, app, vs = s
        c = self.eq(e, True, vs) if n.kind == "br" else None
        if c is not None and c[:2] == (0, 34):
            # the test for the closing quote, once per round
            if lead != 1:
                self.flag(n, "%d characters consumed and not kept when the closing quote is looked for" % (lead - 1) if lead > 1 else "the opening quote is kept or a character is kept twice")
                return None
            if esc in (34, 92):
                self.escs.add(esc)
                if app != 2:
                    self.flag(n, "an escaped %s is not taken as one with its backslash" % ("quote" if esc == 34 else "backslash"))
            s = (lead, False, lastq, None, 0, vs)
            lead, q, lastq, esc, app, vs = s
        if n.kind == "br" and lab in (True, False):
            c = self.eq(e, lab, vs)
            if c is not None:
                off, val, same = c
                if same and off == 0 and val == 34:
                    q = True
                if same and off == 1 and val in (34, 92):
                    esc = val
                if same and off == 2 and val in (10, 13):
                    esc = None
                return (lead, q, lastq, esc, app, vs)
            return s
        if n.kind == "switch":
            off = self.read(e, lead, vs)
            if off == 1 and lab and lab[0] == "case":
                if lab[1] is not None and lab[1] == lab[2] and lab[1] in (34, 92):
                    return (lead, q, lastq, lab[1], app, vs)
            return s
        if n.kind != "ev" or lab == "exc":
            return s
        if k == "Var" and e.get("init") is not None:
            off = self.read(e["init"], lead, vs)
            vs = frozenset(v for v in vs if v[0] != e["id"])
            if off is not None and "char" in e.get("t", "") and not e["t"].endswith(("&", "*")):
                vs = vs | {(e["id"], off)}
            return (lead, q, lastq, esc, app, vs)
        if k == "Un" and e["op"] in ("++", "p++") and self.T.pos(strip(e["e"])) or k == "Bin" and e["op"] == "+=" and self.T.pos(strip(e["a"])):
            by = 1 if k == "Un" else cfg.cval(e["b"])
            if not isinstance(by, int) or by < 0 or lead + by > 5:
                self.flag(n, "the position moves by something that is not known")
                return None
            self.nadv += 1
            return (lead + by, False, q and by == 1, esc, app, frozenset((i, o - by) for i, o in vs if o - by > -4))
        if k in ("Bin", "Call") and (e.get("op") in ("=", "-=") and self.T.pos(strip(e["a"] if k == "Bin" else operands(e)[0]))):
            self.flag(n, "the position is set")
            return None
        a = self.appended(e)
        if a is not None:
            off = self.read(a, lead, vs)
            self.napp += 1
            # index of the next character that has not been kept, from the position: 1 - lead
            if off is None:
                self.flag(n, "what is kept is not a character of the text")
                return None
            if off != 1 - lead:
                self.flag(n, "a character is %s" % ("kept twice" if off < 1 - lead else "left out"))
                return None
            return (lead - 1, q, lastq, esc, min(app + 1, 3), vs)
        if k == "Call" and e.get("obj") is not None and deep(e["obj"]).get("k") == "Member" and deep(e["obj"]).get("f") == "token" and short(e) in ("pop_back", "erase", "clear", "resize", "assign", "insert"):
            self.flag(n, "what was kept is changed by %s" % short(e))
        return s

    def eq(self, e, lab, vs):
        pol = lab
        x = strip(e)
        while x is not None and x.get("k") == "Un" and x["op"] == "!":
            pol = not pol
            x = strip(x["e"])
        if x is None or x.get("k") != "Bin" or x["op"] not in ("==", "!="):
            return None
        for a, b in ((x["a"], x["b"]), (x["b"], x["a"])):
            v = cfg.cval(b)
            off = self.read(a, 0, vs)
            if isinstance(v, int) and off is not None:
                return off, v, (x["op"] == "==") == pol
        return None


def tokens(ck, P):
    f = P.fn("parser_t::parse_token", "common/parser.cc")
    ck.count("functions")
    peeks = {k for k, g in P.fns.items() if g["n"] == "parser_t::peek"}
    hs = {n for n in helpers(P, f) if not n.endswith("::peek")}
    B = cfg.Builder(P, inline=lambda fn, c, d: fn["n"] in hs, max_depth=2).build(f)
    T = c22.Text(P, B, f.get("cls") or "parser_t", peeks)
    Q = Quoted(P, B, T)
    F = flow.Flow(B, "N", Q.step)
    bad = list(dict.fromkeys("%s (line %s)" % (w, n.ast.get("l") if n.ast else "?") for n, w in Q.bad))
    nend = 0
    for s in F.states(B.exit):
        if s == "N":
            continue
        nend += 1
        lead, q, lastq, esc, app, vs = s
        if lead != 2 or not lastq:
            bad.append("a quoted token ends %s" % ("without its closing quote being consumed" if lead < 2 else "with %d characters consumed and not kept" % (lead - 2) if lead > 2 else "at something other than a quote"))
    if not nend:
        raise AnalysisBroken("no quoted token in parser_t::parse_token")
    if Q.escs != {34, 92}:
        bad.append("%s is not recognised" % " and ".join({34: "an escaped quote", 92: "an escaped backslash"}[x] for x in sorted({34, 92} - Q.escs)))
    ck.count("positions", Q.nadv)
    ck.ob("token", "quoted", not bad, where(f), "between quotes every character is kept exactly once, in order, up to the first quote that is not escaped" + (" -- " + "; ".join(bad[:3]) if bad else ""))


# ------------------------------------------------------------------ the lump
def lump(ck, P):
    r = [g for g in P.fns.values() if g["f"] == "common/bspfile.cc" and g["n"].split("::")[-1] == "read" and len(g["params"]) == 2 and sym.isstr(g["params"][1]["t"])]
    w = [g for g in P.fns.values() if g["f"] == "common/bspfile.cc" and g["n"].split("::")[-1] == "write_lump" and len(g["params"]) == 2 and sym.isstr(g["params"][1]["t"])]
    if len(r) != 1 or len(w) != 1:
        raise AnalysisBroken("text lump reader or writer not found")
    r, w = r[0], w[0]
    ck.count("functions", 2)
    S = sym.summary(P, r, inline=helpers(P, r), calls=("read",))
    bad = []
    for g, e, how in paths(S):
        es = [x for x in e if x[0] == "mutate" or x[0] == "call" or x[0] == "empty"]
        rd = [i for i, x in enumerate(es) if x[0] == "call"]
        sizes = [x for x in es if x[0] == "mutate" and x[1] in ("resize", "pop_back", "erase", "push_back", "assign", "append") and x[2] == "P1"]
        if not rd:
            if len(sizes) > 1:
                bad.append("text that was not read")
            continue
        nul = [p for a, p in g if re.fullmatch(r"P1\[-1 \+ 1\*(.+)\.filelen\] == 0|P1\[-1 \+ 1\*P1\.size\(\)(@\d+)?\] == 0", a)]
        n0 = sizes[0][3] if sizes and len(sizes[0]) > 3 else "?"
        rest = sizes[1:]
        if not n0.endswith(".filelen") or sizes[0][1] != "resize":
            bad.append("the text is not given the lump's length (%s)" % n0)
        if nul == [True]:
            ok = len(rest) == 1 and (rest[0][1] == "pop_back" or rest[0][1] == "resize" and rest[0][3] == "-1 + 1*" + n0)
            if not ok:
                bad.append("the terminator is not what is taken off: %s" % str(rest)[:80])
        elif rest:
            bad.append("text without a terminator loses %s" % str(rest)[:60])
        if not nul:
            bad.append("the terminator is not looked for")
    ck.ob("lump", "read", not bad, where(r), "the entity text read is the lump, without the terminator when there is one" + (" -- " + "; ".join(dict.fromkeys(bad[:3])) if bad else ""))
    S = sym.summary(P, w, inline=helpers(P, w), calls=("write", "put"))
    bad = []
    for g, e, how in paths(S):
        ws = [x for x in e if x[0] == "call" and x[1] in ("write", "put")]
        n = [x[-1] for x in ws]
        if not (len(ws) == 1 and n[0] in ("1 + 1*P1.size()",) and "P1" in ws[0][-2]):
            bad.append("written: %s" % str(ws)[:90])
    ck.ob("lump", "write", not bad, where(w), "the entity text is written whole with one terminator" + (" -- " + "; ".join(dict.fromkeys(bad[:3])) if bad else ""))


# ------------------------------------------------------------------ which keys change
KEYS = {"qbsp": {("set", "model"), ("set", "_lmscale"), ("set", "mins"), ("set", "maxs"), ("set", "classname"), ("set", "origin"), ("set", "style"), ("remove", "style")},
        "light": {("remove", "lightmap_scale"), ("set", "_lightmap_scale"), ("set", "style"), ("set", "switchshadstyle"), ("rename", "_falloff"), ("rename", "_distance"), ("rename", "_fade"),
                  ("rename", "_angfade"), ("rename", "_angwait"), ("set", "_anglescale")},
        "bsputil": {("set", "origin"), ("set", "lip"), ("set", "height"), ("remove", "origin"), ("remove", "style")},
        "common": set(), "vis": set(), "bspinfo": set()}


def keys(ck, P):
    ops = {k: g["n"].split("::")[-1] for k, g in P.fns.items() if g["n"] in ("entdict_t::set", "entdict_t::remove", "entdict_t::rename")}
    for f in sorted(P.fns.values(), key=lambda g: (g["f"], g["l"])):
        tool = f["f"].split("/")[0]
        if tool not in KEYS or f["f"] == "common/entdata.cc":
            continue
        own = {x["id"] for x in model.fn_nodes(f) if x.get("k") == "Var" and "entdict_t" in x.get("t", "") and x.get("init") is not None
               and (not x["t"].endswith(("&", "*")) or x["t"].endswith("&") and deep(x["init"]).get("k") == "Call" and short(deep(x["init"])) == "emplace_back")}
        seen = {}
        part = lambda y: y.get("k") == "Member" and y.get("f") in ("first", "second") and "pair<std::basic_string<char" in y.get("cls", "") and y["cls"].count("basic_string<char,") == 2
        named = {}
        for x in model.fn_nodes(f):
            if x.get("k") == "Decomp" and x["t"].endswith("&") and not x["t"].startswith("const") and x["t"].startswith("std::pair<std::basic_string<char") and x["t"].count("basic_string<char,") == 2:
                for i, b in enumerate(x.get("b", ())[:2]):
                    for q in (b["id"], (b.get("e") or {}).get("id")):
                        named[q] = ("first", "second")[i]
            elif x.get("k") == "Var" and x.get("init") is not None and x.get("t", "").endswith("&") and not x["t"].startswith("const") and part(deep(x["init"])):
                named[x["id"]] = deep(x["init"])["f"]
        for x in model.fn_nodes(f):
            if x.get("k") == "Call" and x.get("fn") in ops:
                r = deep(x["obj"])
                if r.get("k") == "Ref" and r.get("id") in own:
                    continue
                a = sym.strlit(x["args"][0])
                op = ops[x["fn"]]
                if a is None:
                    v = x["args"][1] if len(x["args"]) > 1 else None
                    tok = v is not None and any(y.get("k") == "Member" and y.get("f") == "token" for y in walk(v))
                    both = v is not None and {y.get("f") for y in walk(x["args"][0]) if y.get("k") == "Member"} == {"first"} and {y.get("f") for y in walk(v) if y.get("k") == "Member"} == {"second"}
                    rd = any(y.get("k") == "Call" and short(y) == "parse_token" for y in model.fn_nodes(f))
                    ok = tok or both or rd
                    name = "%s(computed)" % op
                else:
                    ok = (op, a[1:-1]) in KEYS[tool]
                    name = "%s %s" % (op, a)
                k = "%s:%s:%s" % (f["f"], f["n"].split("::")[-1], name)
                seen[k] = seen.get(k, 0) + 1
                ck.count("edits")
                ck.ob("keys", k + ("#%d" % seen[k] if seen[k] > 1 else ""), ok, "%s:%d (%s)" % (f["f"], x["l"], f["n"].split("::")[-1]), "an entity's key that is changed is one the tool is documented to compute")
            # values changed behind the dictionary's back
            l = None
            if x.get("k") == "Call" and x.get("obj") is not None and short(x) in ("erase", "clear", "append", "push_back", "pop_back", "assign", "resize", "insert", "replace", "swap"):
                l = deep(x["obj"])
            elif x.get("k") == "Call" and x.get("op") in ("=", "+=") and len(operands(x)) == 2:
                l = deep(operands(x)[0])
            if l is not None and (part(l) or l.get("k") == "Ref" and l.get("id") in named):
                which = l["f"] if part(l) else named[l["id"]]
                v = operands(x)[1] if len(operands(x)) > 1 else None
                esc = x.get("op") == "=" and v is not None and deep(v).get("k") == "Call" and short(deep(v)) == "ParseEscapeSequences" and tool == "light" and which == "second"
                ck.ob("keys", "%s:%s:%s" % (f["f"], f["n"].split("::")[-1], which), esc, "%s:%d (%s)" % (f["f"], x["l"], f["n"].split("::")[-1]), "a pair's text is not changed in place, except for the escapes the light tool is documented to expand")
    ck.floor("keys", 25)


def light(ck, P):
    f = P.fn("LoadEntities", "light/entities.cc")
    bad = []
    asg = [x for g in P.fns.values() if g["f"].startswith("light/") for x in model.fn_nodes(g) if changes(x, "entdicts")]
    n = 0
    for x in asg:
        if x.get("obj") is None and x.get("op") != "=":
            bad.append("line %d: %s may change them" % (x["l"], short(x)))
        elif x.get("op") == "=":
            v = deep(operands(x)[1])
            n += 1
            if not (v.get("k") == "Call" and short(v) == "EntData_Parse"):
                bad.append("line %d: the entities are set to something else" % x["l"])
        elif short(x) != "clear":
            bad.append("line %d: %s" % (x["l"], short(x)))
    if n != 1:
        bad.append("%d places read the entities" % n)
    ck.ob("light", "entities", not bad, where(f), "the light tool's entities are those of the map, all of them, from loading to writing" + (" -- " + "; ".join(bad[:3]) if bad else ""))
    f = P.fn("WriteEntitiesToString", "light/entities.cc")
    ok = False
    for x in model.fn_nodes(f):
        if x.get("k") == "Call" and x.get("op") == "=" and len(operands(x)) == 2:
            l, v = deep(operands(x)[0]), deep(operands(x)[1])
            if l.get("k") == "Member" and l.get("f") == "dentdata":
                ok = v.get("k") == "Call" and short(v) == "EntData_Write" and deep(operands(v)[0]).get("n", "").split("::")[-1] == "entdicts"
    ck.ob("light", "written", ok, where(f), "what the light tool writes is the text of all its entities")
    f = P.fn("ParseEscapeSequences", "light/entities.cc")
    S = sym.summary(P, f, text=True, val=lit, inline=helpers(P, f, STOP))
    ck.count("functions")
    bad = []
    heads = [h for h in S.iters if h != "F"]
    for g, e, how in (S.iters[heads[0]] if len(heads) == 1 else ()):
        lets = [x for x in e if x[0] == "let"]
        idx = [m.group(1) for a, p in g for m in [re.search(r"92 \+ -1\*P0\[(v:[\d.]+|i'*<P0\.size\(\)>)\] == 0", a)] if m]
        if not idx:
            bad.append("a round does not look at the character it is at")
            continue
        i = idx[0]
        slash = any(p for a, p in g if a == "92 + -1*P0[%s] == 0" % i)
        b = any(p for a, p in g if a == "98 + -1*P0[1 + 1*%s] == 0" % i)
        texts = [x for x in e if x[0] == "text"]
        steps = [x[2] for x in lets if x[1] == i]
        by = steps[-1] if steps else ("1 + 1*" + i if i.startswith("i") else None)
        flip = [x for x in lets if x[2] == "!" + x[1]]
        if slash and b:
            if texts or by != "2 + 1*" + i or len(flip) != 1:
                bad.append("the escape is not taken as a whole")
        else:
            val = {x[1]: x[2] for x in lets}
            c = texts[0][2] if len(texts) == 1 and len(texts[0]) == 3 else None
            c = val.get(c, c)
            if c not in ("P0[%s]" % i, "or(128,P0[%s])" % i) or by != "1 + 1*" + i or flip:
                bad.append("a character is not kept as it is: %s" % str(c))
            bold = [p for a, p in g if re.fullmatch(r"v:[\d.]+", a)]
            if c is not None and c.startswith("or(") != (bold == [True]):
                bad.append("the bold bit does not follow the escape")
    if len(heads) != 1:
        raise AnalysisBroken("ParseEscapeSequences: loop not found")
    ck.ob("light", "escapes", not bad, where(f), "expanding the bold escape keeps every other character as it is" + (" -- " + "; ".join(dict.fromkeys(bad[:3])) if bad else ""))


def entities(ck, P):
    """the list of entities read is the text's, whole"""
    f = P.fn("EntData_ParseInto", "common/entdata.cc")
    ck.count("functions")
    S = sym.summary(P, f, val=lit, inline=helpers(P, f, STOP) - {"entdict_t::entdict_t"}, calls=("parse_token", "at_end", "parse"))
    bad = []
    heads = [h for h in S.iters if h != "F"]
    if len(heads) != 1:
        bad.append("no single loop over the entities")
    for h in heads:
        for g, e, how in S.iters[h]:
            over = [(a, p) for a, p in g if a.startswith("at_end(") and p or a.startswith("parse_token(") and not p]
            other = [a for a, p in g if not a.startswith(("at_end(", "parse_token("))]
            push = [x for x in e if x[0] == "push"]
            if how == "left" and (not over or other):
                bad.append("reading stops before the end of the text (%s)" % (other[0][:50] if other else "always"))
            if how == "next" and (len(push) != 1 or push[0][1] != "P1" or other):
                bad.append("an entity that was read is not added" + (" under %s" % other[0][:50] if other else ""))
    for g, e, how in paths(S):
        if [x for x in e if x[0] in ("mutate", "empty", "push")]:
            bad.append("the list is changed outside the loop")
    ck.ob("reader", "entities", not bad, where(f), "every entity of the text is read, to its end, and added in order" + (" -- " + "; ".join(dict.fromkeys(bad[:3])) if bad else ""))


def texts(ck, P):
    """what is stored as a map's entity text"""
    OKC = {"move", "EntData_Write", "data", "size", "operator->", "value", "forward", "as_const", "c_str", "get", "begin", "end", "operator*", "value_or"}
    n = 0
    for f in sorted(P.fns.values(), key=lambda g: (g["f"], g["l"])):
        if f["f"].startswith(("lightpreview", "tests")):
            continue
        i = 0
        for x in model.fn_nodes(f):
            if x.get("k") == "Call" and x.get("op") == "=" and len(operands(x)) == 2:
                l = deep(operands(x)[0])
                if l.get("k") == "Member" and l.get("f") == "dentdata":
                    n += 1
                    i += 1
                    cs = [short(y) for y in walk(operands(x)[1]) if y.get("k") == "Call" and not y.get("conv")]
                    ar = [y for y in walk(operands(x)[1]) if y.get("k") in ("Bin", "Cond", "Index") or y.get("k") == "Int"]
                    ck.ob("text", "%s:%s#%d" % (f["f"], f["n"].split("::")[-1], i), not ar and set(cs) <= OKC, "%s:%d (%s)" % (f["f"], x["l"], f["n"].split("::")[-1]), "a map's entity text is replaced by a whole text, not by a part of one")
            elif x.get("k") == "Call" and x.get("obj") is not None and short(x) in sym.Sym.MUT + ("replace",):
                l = deep(x["obj"])
                if l.get("k") == "Member" and l.get("f") == "dentdata":
                    i += 1
                    ok = short(x) in ("append", "push_back", "reserve") or f["n"].endswith("::stream_read")
                    ck.ob("text", "%s:%s#%d" % (f["f"], f["n"].split("::")[-1], i), ok, "%s:%d (%s)" % (f["f"], x["l"], f["n"].split("::")[-1]), "a map's entity text is only added to by its writer")
    ck.floor("text", 4)


# where a computed value comes from, and what has to be asked before a key is touched: operation -> (keys the value is computed from, keys the decision reads)
FROM = {"light": {("set", "_lightmap_scale"): ({"lightmap_scale"}, {"lightmap_scale"}), ("remove", "lightmap_scale"): (None, {"lightmap_scale"}), ("set", "style"): ({"targetname"}, {"classname", "targetname"}),
                  ("set", "switchshadstyle"): ({"targetname"}, {"_switchableshadow"}), ("set", "_anglescale"): ({"_anglescale"}, {"_anglescale", "classname"}),
                  ("rename", "_falloff"): (None, {"classname"}), ("rename", "_distance"): (None, {"classname"}), ("rename", "_fade"): (None, {"classname"}), ("rename", "_angfade"): (None, {"classname"}),
                  ("rename", "_angwait"): (None, {"classname"})},
        "bsputil": {("set", "origin"): ({"origin"}, {"origin"}), ("set", "lip"): ({"lip"}, {"lip"}), ("set", "height"): ({"height"}, {"height"}), ("remove", "style"): (None, {"style", "classname"})},
        "qbsp": {("set", "_lmscale"): (set(), {"_lmscale"}), ("remove", "style"): (None, {"classname"}), ("set", "style"): (set(), {"classname"})}}
COPY = {("light", "set", "_lightmap_scale")}
READS = ("get", "get_int", "get_float", "get_vector", "has", "find")


def keyreads(e, vs, depth=0, seen=None):
    """keys of an entity an expression's value depends on"""
    seen = set() if seen is None else seen
    out, calls = set(), set()
    for x in walk(e):
        if x.get("k") == "Call":
            calls.add(short(x))
            if short(x) in READS and x.get("args") and "entdict_t" in x.get("n", ""):
                t = sym.strlit(x["args"][0])
                out.add(t[1:-1] if t else "?")
        if x.get("k") == "Ref" and x.get("id") in vs and x["id"] not in seen:
            seen.add(x["id"])
            for d in vs[x["id"]]:
                o, c = keyreads(d, vs, depth + 1, seen)
                out |= o
                calls |= c
    return out, calls


def defs(f):
    """variable -> expressions its value comes from"""
    vs = {}
    for x in model.fn_nodes(f):
        if x.get("k") == "Var" and x.get("init") is not None:
            vs.setdefault(x["id"], []).append(x["init"])
        elif x.get("k") == "Bin" and x["op"].endswith("=") and x["op"] not in cfg.__dict__.get("CMP", ()) and x["op"] not in ("==", "!=", "<=", ">=") or x.get("k") == "Call" and x.get("op", "") in ("=", "+=", "-=", "*=", "/="):
            a, b = (x["a"], x["b"]) if x["k"] == "Bin" else operands(x)[:2]
            r = deep(a)
            while r.get("k") in ("Index", "Member") and r.get("base") is not None or r.get("k") == "Call" and r.get("op") == "[]":
                r = deep(r["base"] if r["k"] != "Call" else operands(r)[0])
            if r.get("k") == "Ref" and r.get("id") is not None:
                vs.setdefault(r["id"], []).append(b)
        elif x.get("k") == "Call" and short(x) == "get_vector" and len(x.get("args", ())) == 2:
            r = deep(x["args"][1])
            if r.get("k") == "Ref" and r.get("id") is not None:
                vs.setdefault(r["id"], []).append(x)
    return vs


def reach(B, *without):
    seen, work = {B.entry.i}, [B.entry.i]
    while work:
        n = B.nodes[work.pop()]
        for t, lab in list(n.succ) + ([(n.exc, "exc")] if n.exc is not None else []):
            if (n.i, lab) not in without and t not in seen:
                seen.add(t)
                work.append(t)
    return seen


def values(ck, P):
    for tool, table in FROM.items():
        for f in sorted(P.fns.values(), key=lambda g: (g["f"], g["l"])):
            if not f["f"].startswith(tool + "/"):
                continue
            sites = []
            for x in model.fn_nodes(f):
                if x.get("k") == "Call" and x.get("n", "").startswith("entdict_t::") and short(x) in ("set", "remove", "rename"):
                    t = sym.strlit(x["args"][0])
                    if t and (short(x), t[1:-1]) in table:
                        sites.append((x, (short(x), t[1:-1])))
            own = {x["id"] for x in model.fn_nodes(f) if x.get("k") == "Var" and "entdict_t" in x.get("t", "") and not x["t"].endswith(("&", "*"))}
            fresh = {x["id"] for x in model.fn_nodes(f) if x.get("k") == "Var" and x.get("init") is not None and deep(x["init"]).get("k") == "Call" and short(deep(x["init"])) == "emplace_back"}
            sites = [(x, k) for x, k in sites if deep(x["obj"]).get("k") != "Call" and not (deep(x["obj"]).get("k") == "Ref" and deep(x["obj"]).get("id") in own | fresh)]
            if not sites:
                continue
            vs = defs(f)
            B = cfg.Builder(P, inline=lambda fn, c, d: False, max_depth=0).build(f)
            callers = [h for h in P.fns.values() if any(y.get("k") == "Call" and y.get("fn") == f["key"] for y in model.fn_nodes(h))] if len(f["params"]) else []
            for x, k in sites:
                src, ask = table[k]
                wh = "%s:%d (%s)" % (f["f"], x["l"], f["n"].split("::")[-1])
                if src is not None:
                    got, calls = keyreads(x["args"][1], vs)
                    bad = got - src
                    if src and not got and not any(deep(y).get("dk") == "parm" for y in walk(x["args"][1]) if y.get("k") == "Ref"):
                        bad = {"nothing"}
                    ck.ob("value", "%s:%s %s from" % (f["n"].split("::")[-1], k[0], k[1]), not bad, wh, "the value computed for a key comes from the keys it is documented to come from" + (" -- " + ", ".join(sorted(bad)) if bad else ""))
                    if (tool,) + k in COPY:
                        cut = calls & {"substr", "resize", "pop_back", "erase", "stoi", "atoi", "to_string", "format", "stod", "atof", "get_int", "get_float"}
                        ck.ob("value", "%s:%s %s whole" % (f["n"].split("::")[-1], k[0], k[1]), not cut, wh, "a value moved to another key is moved whole" + (" -- " + ", ".join(sorted(cut)) if cut else ""))
                ns = [n for n in B.nodes if n.ast is not None and n.kind == "ev" and n.ast.get("k") == "Call" and short(n.ast) == short(x) and n.ast.get("l") == x["l"] and n.ast.get("n") == x["n"] and sym.strlit(n.ast["args"][0]) == '"%s"' % k[1]]
                if not ns:
                    continue
                node = ns[0]
                asked = set()
                gv = {"0.%s" % i: d for i, d in vs.items()}
                for b in B.nodes:
                    if b.kind == "br" and b.ast is not None:
                        o, _ = keyreads(b.ast, {**gv, **vs})
                        if o - asked:
                            for lab in (True, False):
                                if node.i not in reach(B, (b.i, lab)):
                                    asked |= o
                                    break
                miss = ask - asked
                if miss and callers and all(any(y.get("k") == "Call" and sym.strlit(y["args"][0]) == '"%s"' % m for h in callers for y in model.fn_nodes(h) if y.get("k") == "Call" and short(y) in READS and y.get("args")) for m in miss):
                    miss = set()
                ck.ob("value", "%s:%s %s asked" % (f["n"].split("::")[-1], k[0], k[1]), not miss, wh, "a key is only changed on an entity the change is documented for" + (" -- not asked: " + ", ".join(sorted(miss)) if miss else ""))
    ck.floor("value", 20)


def aliases(ck, P):
    """pairs added from a class definition do not replace what the map says, except for the class itself"""
    n = 0
    for f in sorted(P.fns.values(), key=lambda g: (g["f"], g["l"])):
        if not f["f"].startswith("qbsp/"):
            continue
        cs = [x for x in model.fn_nodes(f) if x.get("k") == "Call" and x.get("n") == "entdict_t::set" and {y.get("f") for y in walk(x["args"][0]) if y.get("k") == "Member"} == {"first"}]
        if not cs:
            continue
        B = cfg.Builder(P, inline=lambda fn, c, d: False, max_depth=0).build(f)
        cut = set()
        for b in B.nodes:
            if b.kind != "br" or b.ast is None:
                continue
            pol, x = True, strip(b.ast)
            while x is not None and x.get("k") == "Un" and x["op"] == "!":
                pol, x = not pol, strip(x["e"])
            if x is None:
                continue
            if x.get("k") == "Call" and short(x) == "has" and "entdict_t" in x.get("n", ""):
                cut.add((b.i, not pol))
            elif x.get("op") in ("==", "!=") and any(y.get("k") == "Str" and y.get("v") == "classname" for y in walk(x)):
                cut.add((b.i, pol == (x["op"] == "==")))
        left = reach(B, *cut)
        bad = [nd for nd in B.nodes if nd.kind == "ev" and nd.ast is not None and nd.ast.get("k") == "Call" and nd.ast.get("n") == "entdict_t::set" and nd.i in left
               and {y.get("f") for y in walk(nd.ast["args"][0]) if y.get("k") == "Member"} == {"first"}]
        n += 1
        ck.ob("value", "%s:alias" % f["n"].split("::")[-1], not bad, "%s:%d (%s)" % (f["f"], cs[0]["l"], f["n"].split("::")[-1]), "a class definition's pair is only added where the map gives no value, except for the class itself")
    if not n:
        raise AnalysisBroken("class definitions are not applied")


def order(ck, P):
    """the light tool stores its entities' text before it writes the map"""
    f = P.fn("light_main", "light/light.cc", nparams=2)
    hs = helpers(P, f)
    B = cfg.Builder(P, inline=lambda fn, c, d: fn["n"] in hs, max_depth=2).build(f)

    def step(n, s, lab):
        e = n.ast
        if n.kind == "ev" and e is not None and e.get("k") == "Call" and lab != "exc" and short(e) == "WriteEntitiesToString":
            return True
        return s
    F = flow.Flow(B, False, step)
    n, bad = 0, []
    for nd in B.nodes:
        if nd.kind == "ev" and nd.ast is not None and nd.ast.get("k") == "Call" and short(nd.ast) in ("WriteBSPFile", "ConvertBSPFormat") and (short(nd.ast) == "WriteBSPFile" or any(nd.i in F.at and True in F.at[nd.i] for _ in (0,))):
            if short(nd.ast) == "WriteBSPFile":
                n += 1
                if False in F.states(nd):
                    bad.append("line %d is reached without" % nd.ast["l"])
    if not n:
        raise AnalysisBroken("light_main does not write the map")
    ck.ob("light", "stored", not bad, where(f), "the text of the entities is stored in the map before it is written" + (" -- " + "; ".join(bad) if bad else ""))


def changes(x, name):
    if x.get("k") != "Call":
        return False
    o = operands(x)
    if not o:
        return False
    mp = x.get("mp") or ()
    if x.get("obj") is None and not x.get("op") and any(m == 1 and deep(a).get("k") == "Ref" and deep(a).get("n", "").split("::")[-1] == name and deep(a).get("dk") == "global" for m, a in zip(mp, x.get("args", ()))):
        return True
    l = deep(o[0])
    if l.get("k") != "Ref" or l.get("n", "").split("::")[-1] != name or l.get("dk") == "param":
        return False
    return x.get("op") == "=" and len(o) == 2 or x.get("obj") is not None and short(x) in sym.Sym.MUT + ("swap",)


def run(ck):
    P = ck.load("common", "qbsp", "light", "bsputil", "vis", "bspinfo", "maputil")
    dictionary(ck, P)
    f = P.fn("EntData_Write", "common/entdata.cc")
    writer(ck, P, f, False, (), "EntData_Write")
    f = P.fn("WriteEntitiesToString", "qbsp/map.cc")
    writer(ck, P, f, True, (r"IsWorldBrushEntity\(%s\)", r"%s\.epairs\.size\(\) == 0"), "qbsp")
    worldbrush(ck, P, P.fn("IsWorldBrushEntity", "qbsp/map.cc"))
    readers(ck, P)
    entities(ck, P)
    texts(ck, P)
    values(ck, P)
    order(ck, P)
    aliases(ck, P)
    tokens(ck, P)
    lump(ck, P)
    keys(ck, P)
    light(ck, P)
    ck.floor("dictionary", 10)
    ck.floor("writer", 4)
    ck.assumptions.append("fmt writes a bare placeholder of a string verbatim; std::string, std::vector and std::isspace as the standard defines them")
