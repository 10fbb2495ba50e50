"""Program model: extracts (via tool/extract.cpp, a libTooling program) and
loads the resolved syntax trees of the first-party C++ sources of REPO."""
import hashlib, json, os, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DIRS = ["common", "vis", "bspinfo", "maputil", "qbsp", "light", "bsputil"]

CHILD_ORDER = ["init", "cvar", "cond", "callee", "obj", "base", "idx", "place", "range", "var", "a", "e", "b",
               "e2", "n", "then", "else", "body", "inc", "sub", "c", "args", "caps", "h"]
_CO = {k: i for i, k in enumerate(CHILD_ORDER)}


class AnalysisBroken(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tool_path():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = _sha(open(src, "rb").read())
    out = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    cxx = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
    cxx = [f for f in cxx if f not in ("-fno-exceptions",) and not f.startswith("-std=")]
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["clang++-18", "-O1", "-fno-rtti", "-w"] + cxx + ["-std=c++17", src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
                                                           "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def flags(rel):
    f = ["-std=gnu++20", '-DERICWTOOLS_VERSION=""', "-DFMT_SHARED", "-DLINUX", "-DUSE_PTHREADS", "-DNDEBUG", "-DUSE_LUA",
         "-I/usr/include/lua5.4", "-I" + REPO + "/include", "-I" + REPO + "/3rdparty", "-I" + VERIF + "/stubs",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]
    if not rel.startswith("common/"):
        f += ["-include", VERIF + "/tool/pch.hh"]
    return f


def tree_files():
    out = []
    for d in DIRS + ["include"]:
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cc", ".cpp", ".hh", ".h", ".hpp", ".c", ".in")):
                    out.append(os.path.join(r, f))
    return out


def _walk_types(o, types):
    st = [o]
    while st:
        x = st.pop()
        if type(x) is dict:
            for k in ("t", "from", "of", "ret", "u"):
                v = x.get(k)
                if type(v) is int:
                    x[k] = types[v]
            st.extend(v for v in x.values() if type(v) in (dict, list))
        else:
            st.extend(v for v in x if type(v) in (dict, list))


class Program:
    def __init__(self):
        self.fns = {}
        self.by_name = {}
        self.recs = {}
        self.enums = {}
        self.vars = {}
        self.tus = []
        self.overriders = {}

    def fn(self, name, file=None, required=True, nparams=None, pred=None):
        """Unique function by qualified name."""
        c = self.named(name, file)
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if len(c) == 1:
            return c[0]
        if required:
            raise AnalysisBroken("anchor: expected one function %s%s, found %d" % (name, " in " + file if file else "", len(c)))
        return c[0] if c else None

    def named(self, name, file=None):
        return [f for f in self.by_name.get(name, []) if file is None or f["f"] == file]

    def rec(self, name):
        if name not in self.recs:
            raise AnalysisBroken("anchor: record %s not found" % name)
        return self.recs[name]

    def callees(self, call):
        """Possible first-party definitions of a call node."""
        out = []
        k = call.get("fn")
        if k is None:
            return out
        if call.get("virt"):
            todo, seen = [k], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in self.fns:
                    out.append(self.fns[x])
                todo.extend(self.overriders.get(x, ()))
        elif k in self.fns:
            out.append(self.fns[k])
        return out


def load(dirs=None, verbose=False):
    t0 = time.time()
    tool = tool_path()
    srcs = []
    for d in DIRS:
        if dirs is not None and d not in dirs:
            continue
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            raise AnalysisBroken("no directory " + p)
        srcs += sorted(d + "/" + f for f in os.listdir(p) if f.endswith((".cc", ".cpp")))
    allf = tree_files()
    h = hashlib.sha256()
    h.update(tool.encode())
    h.update(REPO.encode())
    h.update(" ".join(flags("x/")).encode())
    for p in sorted(os.listdir(VERIF + "/stubs")):
        for r, _, fs in os.walk(os.path.join(VERIF, "stubs", p)):
            for f in sorted(fs):
                h.update(open(os.path.join(r, f), "rb").read())
    shas = {}
    for p in allf:
        b = open(p, "rb").read()
        if p.endswith((".cc", ".cpp")) and b'.cc"' not in b and b'.cpp"' not in b:
            shas[p] = _sha(b)  # only its own translation unit sees this file
            continue
        h.update(p.encode())
        h.update(b)
    cdir = os.path.join(BUILD, "cache", h.hexdigest()[:20])
    os.makedirs(cdir, exist_ok=True)
    os.utime(cdir)
    # keep the cache small
    cs = sorted((os.path.getmtime(os.path.join(BUILD, "cache", c)), c) for c in os.listdir(os.path.join(BUILD, "cache")))
    for _, c in cs[:-6]:
        shutil.rmtree(os.path.join(BUILD, "cache", c), ignore_errors=True)

    def one(rel):
        out = os.path.join(cdir, rel.replace("/", "_") + "." + shas.get(os.path.join(REPO, rel), "x") + ".jsonl")
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            r = subprocess.run([tool, REPO, tmp, os.path.join(REPO, rel), "--"] + flags(rel), capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(tmp):
                raise AnalysisBroken("extraction of %s failed: %s" % (rel, r.stderr[-1500:]))
            with open(tmp + ".err", "w") as f:
                f.write(r.stderr)
            os.rename(tmp + ".err", out + ".err")
            os.rename(tmp, out)
        return rel, out

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    P = Program()
    for rel, out in outs:
        lines = open(out, encoding="utf-8").read().split("\n")
        lines = [l for l in lines if l]
        tu = json.loads(lines[-1])
        if tu.get("k") != "tu":
            raise AnalysisBroken("truncated extraction of " + rel)
        types = tu["types"]
        if tu["errors"]:
            raise AnalysisBroken("%s does not parse: %s" % (rel, open(out + ".err").read()[:1500]))
        P.tus.append({"file": rel, "errors": tu["errors"], "fns": tu["fns"]})
        for l in lines[:-1]:
            o = json.loads(l)
            k = o["k"]
            if k == "fn":
                if o["key"] == "main":
                    o["key"] = "main@" + o["f"]  # every tool has its own
                if o["key"] in P.fns:
                    continue
                P.fns[o["key"]] = o
            elif k == "rec":
                if o["n"] in P.recs:
                    continue
                P.recs[o["n"]] = o
            elif k == "enum":
                if o["n"] in P.enums:
                    continue
                P.enums[o["n"]] = o
            elif k == "var":
                if o["key"] in P.vars:
                    continue
                P.vars[o["key"]] = o
            _walk_types(o, types)
    for f in P.fns.values():
        P.by_name.setdefault(f["n"], []).append(f)
        for ov in f.get("over", ()):
            P.overriders.setdefault(ov, []).append(f["key"])
    for r in P.recs.values():
        for m in r["methods"]:
            for ov in m.get("over", ()):
                l = P.overriders.setdefault(ov, [])
                if m["key"] not in l:
                    l.append(m["key"])
    P.load_s = time.time() - t0
    return P


def kids(n):
    """Direct children, in evaluation-ish order."""
    ks = [k for k, v in n.items() if type(v) is dict or (type(v) is list and v and any(type(x) is dict for x in v))]
    ks.sort(key=lambda k: _CO.get(k, 99))
    for k in ks:
        v = n[k]
        if type(v) is dict:
            yield v
        else:
            for x in v:
                if type(x) is dict:
                    yield x


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(kids(x))))


def fn_nodes(fn):
    for i in fn.get("inits", ()):
        if "e" in i and i["e"]:
            yield from walk(i["e"])
    if fn.get("body"):
        yield from walk(fn["body"])


def strip(n):
    """Strip casts."""
    while n is not None and n.get("k") == "Cast":
        n = n["e"]
    return n


def loc(fn, n=None):
    return "%s:%d" % (fn["f"], (n or fn).get("l", fn["l"]))


def path(n):
    """Readable rendering of an expression."""
    if n is None:
        return "?"
    k = n.get("k")
    if k == "Ref":
        return n["n"]
    if k == "Member":
        if n.get("anon"):
            return path(n["base"])
        b = n.get("base")
        if b is None or b.get("k") == "This":
            return "this->" + n["f"]
        return path(b) + "." + n["f"]
    if k == "Cast":
        return path(n["e"])
    if k == "Int" or k == "Float":
        return str(n["v"])
    if k == "Str":
        return json.dumps(n.get("v", ""))
    if k == "Index":
        return path(n["base"]) + "[" + path(n["idx"]) + "]"
    if k == "Un":
        op = n["op"]
        return (path(n["e"]) + op[1:]) if op.startswith("p") else op + path(n["e"])
    if k == "Bin":
        return "(" + path(n["a"]) + " " + n["op"] + " " + path(n["b"]) + ")"
    if k == "This":
        return "this"
    if k == "Call":
        a = n.get("args", [])
        op = n.get("op")
        if op == "[]" and len(a) == 2:
            return path(a[0]) + "[" + path(a[1]) + "]"
        if op in ("*", "->") and len(a) == 1:
            return ("*" if op == "*" else "") + path(a[0])
        if op and len(a) == 2:
            return "(" + path(a[0]) + " " + op + " " + path(a[1]) + ")"
        nm = n.get("n", "?").split("::")[-1] if "n" in n else "(" + path(n.get("callee")) + ")"
        o = n.get("obj")
        pre = (path(o) + ".") if o is not None and o.get("k") != "This" else ""
        return pre + nm + "(" + ", ".join(path(x) for x in a) + ")"
    if k == "Construct":
        a = n.get("args", [])
        if len(a) == 1:
            return path(a[0])
        return n.get("cls", "?") + "{" + ", ".join(path(x) for x in a) + "}"
    if k == "Init":
        return "{" + ", ".join(path(x) for x in n["c"]) + "}"
    if k == "Cond":
        return path(n["cond"]) + "?" + path(n["a"]) + ":" + path(n["b"])
    if k == "Null":
        return "nullptr"
    if k == "SizeOf":
        return "sizeof(" + n.get("of", "") + ")"
    return k or "?"
