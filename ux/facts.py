"""Program model: resolved syntax trees of the library, exported from /repo's current sources."""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXPORTER_SRC = os.path.join(VERIF, "exporter", "uxfacts.cpp")


class AnalysisError(Exception):
    """The analysis cannot be carried out (missing anchor, unparsable source): an error exit, no verdict."""


class FrontEndError(AnalysisError):
    """The source could not be read at all."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def exporter():
    """Path of the exporter binary; built on first use."""
    h = hashlib.sha256(open(EXPORTER_SRC, "rb").read()).hexdigest()[:16]
    for d in (BUILD, os.path.join(tempfile.gettempdir(), "ux-build-%d" % os.getuid())):
        exe = os.path.join(d, "uxfacts-" + h)
        if os.access(exe, os.X_OK):
            return exe
    last = ""
    for d in (BUILD, os.path.join(tempfile.gettempdir(), "ux-build-%d" % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            tmp = os.path.join(d, ".uxfacts-%d" % os.getpid())
            open(tmp, "w").close()
        except OSError as e:
            last = str(e)
            continue
        exe = os.path.join(d, "uxfacts-" + h)
        cfg = lambda *a: subprocess.check_output(["llvm-config-18", *a], text=True).split()
        cmd = (["clang++-18"] + cfg("--cxxflags") + ["-O1", "-fno-rtti", EXPORTER_SRC, "-o", tmp] + cfg("--ldflags")
               + [os.path.join(cfg("--libdir")[0], "libclang-cpp.so.18.1")] + cfg("--libs"))
        r = sh(cmd)
        if r.returncode == 0:
            os.rename(tmp, exe)
            return exe
        last = r.stdout
    raise FrontEndError("cannot build the exporter: " + last[-2000:])


CONFIGS = {
    "release": ["-std=c++17"],
    "verify": ["-std=c++17", "-DUTREEXO_VERIFY"],
    "ndebug": ["-std=c++17", "-DNDEBUG"],
    "release20": ["-std=c++20"],
    "verify-ndebug": ["-std=c++17", "-DUTREEXO_VERIFY", "-DNDEBUG"],
}
COMMON = ["-I" + REPO, "-I" + os.path.join(REPO, "src"), "-Wno-everything"]


def lib_sources():
    """The library's translation units, from the build's own source list."""
    mk = os.path.join(REPO, "sources.mk")
    try:
        text = open(mk).read()
    except OSError as e:
        raise FrontEndError("no source list: %s" % e)
    out = re.findall(r"^UTREEXO_LIB_SOURCES_INT\s*\+?=\s*(?:%reldir%/)?(\S+\.cpp)", text, re.M)
    out = [os.path.join(REPO, f) for f in out]
    if len(out) < 6:
        raise FrontEndError("only %d library sources found in sources.mk" % len(out))
    for f in out:
        if not os.path.exists(f):
            raise FrontEndError("library source missing: " + f)
    return out


class Type:
    __slots__ = ("id", "s", "k", "bits", "signed", "to", "const", "rec", "targs", "tmpl", "lambda_", "n", "prog", "rv")

    def __repr__(self):
        return self.s

    @property
    def is_int(self):
        return self.k in ("int", "bool", "enum")

    def strip_ref(self):
        t = self
        while t.k == "ref":
            t = t.to
        return t


class Program:
    """All translation units in one configuration. Node dicts keep the exporter's keys; "t"-like
    entries are replaced with Type objects; declaration ids are made unique per unit."""

    TYPE_KEYS = ("t", "dt", "ret", "ft", "ct", "clt", "at")

    def __init__(self, config="release", sources=None):
        self.config = config
        self.functions = {}   # usr -> fn
        self.by_name = {}     # qualified name -> [fn]
        self.records = {}
        self.globals = []
        self.units = []
        self.types = {}       # canonical string+const -> Type
        self.tu_overrides = {}
        exe = exporter()
        srcs = sources or lib_sources()
        flags = CONFIGS[config] + COMMON
        with tempfile.TemporaryDirectory() as tmp:
            def one(i_src):
                i, src = i_src
                out = os.path.join(tmp, "%d.json" % i)
                r = sh([exe, REPO + "/", out, src, "--"] + flags)
                if r.returncode != 0 or not os.path.exists(out):
                    raise FrontEndError("cannot parse %s: %s" % (src, r.stdout[-1500:]))
                with open(out) as f:
                    return i, src, json.load(f)
            with ThreadPoolExecutor(8) as ex:
                res = sorted(ex.map(one, enumerate(srcs)), key=lambda x: x[0])
        for i, src, d in res:
            if not d["ok"]:
                raise FrontEndError("cannot parse " + src)
            self._load(i, src, d)
        self._index()

    def _load(self, tu, src, d):
        self.units.append(os.path.relpath(src, REPO))
        ts = []
        for o in d["types"]:
            t = Type()
            t.s = o["s"]
            t.k = o["k"]
            t.bits = o.get("bits", 0)
            t.signed = o.get("signed", False)
            t.const = o.get("const", False)
            t.rec = o.get("rec")
            t.tmpl = o.get("tmpl")
            t.lambda_ = o.get("lambda", False)
            t.n = o.get("n", -1)
            t.rv = o.get("rv", False)
            t.to = o.get("to")
            t.targs = o.get("targs", [])
            ts.append(t)
        for t in ts:
            if isinstance(t.to, int):
                t.to = ts[t.to] if t.to >= 0 else None
            t.targs = [ts[a] if isinstance(a, int) and a >= 0 else (int(a["v"]) if isinstance(a, dict) else None) for a in t.targs]

        def fix(o):
            if isinstance(o, dict):
                for k, v in o.items():
                    if k in self.TYPE_KEYS and isinstance(v, int):
                        o[k] = ts[v] if v >= 0 else None
                    elif k == "pt":
                        o[k] = [ts[x] for x in v]
                    elif k == "targs" and isinstance(v, list):
                        o[k] = [ts[a] if isinstance(a, int) and a >= 0 else a for a in v]
                    elif k in ("d", "did", "hold") and isinstance(v, int):
                        o[k] = (tu, v)
                    elif k == "base" and isinstance(v, int):
                        o[k] = ts[v]
                    elif isinstance(v, (dict, list)):
                        fix(v)
            elif isinstance(o, list):
                for x in o:
                    if isinstance(x, (dict, list)):
                        fix(x)
        for key in ("functions", "records", "globals"):
            fix(d[key])
        for f in d["functions"]:
            u = f["usr"]
            if f.get("lambda"):
                u = "lambda:%d:%d" % f["did"]
            elif f.get("internal") or f.get("anon"):
                u = u + "@%d" % tu
            f["key"] = u
            f["tu"] = tu
            f["unit"] = self.units[-1]
            if u not in self.functions:
                self.functions[u] = f
        for r in d["records"]:
            self.records.setdefault(r["n"], r)
        seen = {(g["qn"], g.get("l"), g.get("f")) for g in self.globals}
        for g in d["globals"]:
            g["tu"] = tu
            if (g["qn"], g.get("l"), g.get("f")) not in seen:
                self.globals.append(g)

    def _index(self):
        self.by_name = {}
        for f in self.functions.values():
            self.by_name.setdefault(f["n"], []).append(f)
        self.overriders = {}
        for f in self.functions.values():
            for o in f.get("overrides", []):
                self.overriders.setdefault(o, []).append(f)

    def lookup(self, fnref, tu):
        """Definition of a referenced function, or None."""
        u = fnref["usr"]
        f = self.functions.get(u)
        if f is None:
            f = self.functions.get(u + "@%d" % tu)
        return f

    def fn(self, name, required=True, nparams=None):
        fs = self.by_name.get(name, [])
        if nparams is not None:
            fs = [f for f in fs if len(f["params"]) == nparams]
        if not fs:
            if required:
                raise AnalysisError("anchor not found: function %s" % name)
            return None
        return fs[0]

    def record(self, name):
        r = self.records.get(name)
        if r is None:
            raise AnalysisError("anchor not found: class %s" % name)
        return r

    def all_fields(self, name):
        r = self.records.get(name)
        if r is None:
            return None
        out = []
        for b in r["bases"]:
            out += self.all_fields(b) or []
        return out + r["fields"]

    def derives(self, cls, base):
        if cls == base:
            return True
        r = self.records.get(cls)
        return bool(r) and any(self.derives(b, base) for b in r["bases"])


def loc(fn, node):
    f = node.get("f") or fn.get("file") or "?"
    return "%s:%s" % (f, node.get("l", fn.get("l", "?")))


def children(n):
    """Direct child nodes (statements and expressions) of a node."""
    for k, v in n.items():
        if isinstance(v, dict):
            if "k" in v:
                yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    if "k" in x:
                        yield x
                    elif k in ("caps", "handlers", "inits"):
                        for y in x.values():
                            if isinstance(y, dict) and "k" in y:
                                yield y


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(children(x))))


def fn_nodes(f):
    if f.get("body"):
        yield from walk(f["body"])
    for i in f.get("inits", []):
        if i.get("x"):
            yield from walk(i["x"])
