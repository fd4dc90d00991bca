"""Loads the program facts that factdump extracts from the current /repo tree."""
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FITORIA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = os.path.join(REPO, "include")

DEFS = ["-DFITORIA_HAS_FMT", "-DFITORIA_HAS_ZLIB", "-DFITORIA_HAS_BROTLI",
        "-DFITORIA_HAS_OPENSSL", "-DBOOST_ASIO_HAS_IO_URING"]


class AnalysisError(Exception):
    """The analysis could not be carried out (exit code 2, neither pass nor violation)."""


def sh(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout, **kw)


def resource_dir():
    return sh(["clang++", "-print-resource-dir"]).stdout.strip()


def base_flags():
    return ["-std=c++20", "-I" + INC, "-isystem", os.path.join(BUILD, "shim")] + DEFS


def ensure_built():
    if (os.path.exists(os.path.join(BUILD, "factdump"))
            and os.path.exists(os.path.join(BUILD, "prelude.pch"))
            and os.path.exists(os.path.join(BUILD, "shim", "fitoria_boost_compat.hpp"))):
        return
    r = sh(["bash", os.path.join(VERIF, "engine", "build.sh"), BUILD])
    if r.returncode:
        raise AnalysisError("engine build failed:\n" + r.stdout[-3000:])


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(INC, "fitoria"))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, INC).encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()


def dump(tu, pch=True):
    """Parse VERIF/tu/<tu>.cpp against the current tree; returns the raw fact list."""
    ensure_built()
    src = os.path.join(VERIF, "tu", tu + ".cpp")
    h = hashlib.sha256((tree_hash() + open(src).read()
                        + open(os.path.join(VERIF, "engine", "factdump.cpp")).read()).encode())
    cdir = os.path.join(BUILD, "facts")
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, "%s-%s.json" % (tu, h.hexdigest()[:16]))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [os.path.join(BUILD, "factdump"), "--root", INC, "--root", os.path.join(VERIF, "tu"),
               "--out", tmp, "--skip-ns", "std", "--skip-ns", "boost", "--skip-ns", "fmt",
               src, "--"] + base_flags() + ["-resource-dir", resource_dir(), "-w"]
        ok = False
        for extra in ([["-include-pch", os.path.join(BUILD, "prelude.pch")]] if pch else []) + [
                ["-include", os.path.join(VERIF, "engine", "prelude.hpp")]]:
            r = sh(cmd + extra)
            if r.returncode == 0 and os.path.exists(tmp):
                ok = True
                break
        if not ok:
            raise AnalysisError("%s does not parse against the current tree:\n%s"
                                % (tu, r.stdout[-3000:]))
        os.replace(tmp, out)
        for f in os.listdir(cdir):
            p = os.path.join(cdir, f)
            if f.startswith(tu + "-") and p != out and not f.endswith(".tmp"):
                try:
                    os.unlink(p)
                except OSError:
                    pass
    return json.load(open(out))


def strip_targs(s):
    """'a::b<x, y<z>>::c' -> 'a::b::c' (operators kept)."""
    out, d, i = [], 0, 0
    while i < len(s):
        if s.startswith("operator", i) and d == 0:
            j = i + 8
            k = j
            while k < len(s) and s[k] in "<>=-!+*&|^%/~,[]()":
                k += 1
            if k > j:
                out.append(s[i:k])
                i = k
                continue
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Program:
    def __init__(self, raw, tu):
        self.tu = tu
        self.fns = {}
        self.by_qn = {}
        self.recs = {}
        self.rec_by_type = {}
        self.enums = {}
        self.vars = {}
        self.var_by_id = {}
        self.sas = []
        self.over = {}
        for x in raw:
            k = x["rk"]
            if k == "fn":
                self.fns[x["id"]] = x
                x["sqn"] = short(x["qn"])
                self.by_qn.setdefault(x["sqn"], []).append(x)
                for o in x.get("over", []):
                    self.over.setdefault(o, []).append(x["id"])
            elif k == "rec":
                x["sqn"] = short(x["qn"])
                self.recs.setdefault(x["sqn"], []).append(x)
                self.rec_by_type[x["t"]] = x
            elif k == "enum":
                self.enums[short(x["qn"])] = x
            elif k == "var":
                self.vars.setdefault(short(x["qn"]), []).append(x)
                self.var_by_id[x["id"]] = x
            elif k == "sa":
                self.sas.append(x)

    def find(self, qn, need=True, body=True):
        """All (instantiated) functions with this template-argument-free qualified name."""
        r = [f for f in self.by_qn.get(qn, []) if not body or f.get("body")]
        if need and not r:
            raise AnalysisError("anchor vanished: no function %s in the current tree" % qn)
        return r

    def one(self, qn):
        return self.find(qn)[0]


def short(qn):
    s = strip_targs(qn)
    if s.startswith("fitoria::"):
        s = s[len("fitoria::"):]
    if s.startswith("v0::"):
        s = s[4:]
    return s


_cache = {}


def load(tu):
    if tu not in _cache:
        _cache[tu] = Program(dump(tu), tu)
    return _cache[tu]


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path


def walk(n, pre=None):
    """All dict nodes below n (inclusive)."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(v for kk, v in x.items() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))
