"""Type-level witnesses: a file of static assertions and of lines that must not build.

The compiler decides.  A static assertion of the file that fails, or a line marked "refused" that
builds, is a violation; any other failure to compile leaves the witnesses undecided.
"""
import os
import re

import facts


def compile_(tu, *more):
    src = os.path.join(facts.VERIF, "tu", tu + ".cpp")
    cmd = ["clang++", "-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics",
           "-fno-color-diagnostics", "-w"] + facts.base_flags() + list(more) + [src]
    r = facts.sh(cmd + ["-include", os.path.join(facts.VERIF, "engine", "prelude.hpp")], timeout=400)
    return r.returncode, r.stdout


def check(rep, tu, pid):
    facts.ensure_built()
    src = os.path.join(facts.VERIF, "tu", tu + ".cpp")
    text = open(src).read()
    here = "tu/%s.cpp:" % tu
    rc, out = compile_(tu)
    n = len(re.findall(r"^\s*static_assert\(", text, re.M))
    other = []
    for l in out.splitlines():
        if ": error:" not in l and ": fatal error:" not in l:
            continue
        m = re.search(r"static assertion failed.*: ([\w:+]+)\|(.*)$", l)
        if here in l and m:
            rep.violation("type:%s:%s" % (m.group(1), m.group(2)), None, None, "%s: not so: %s" % (m.group(1), m.group(2)))
        else:
            other.append(l)
    if other:
        raise facts.AnalysisError("the witnesses do not compile: %s" % other[0][-200:])
    rep.obligation("static assertions proved by the compiler", n)
    if "REFUSED" not in text:
        return
    rc, out = compile_(tu, "-DREFUSED")
    hit = set()
    for l in out.splitlines():
        m = re.search(re.escape(here) + r"(\d+):", l)
        if m:
            hit.add(int(m.group(1)))
    k = 0
    for i, l in enumerate(text.splitlines(), 1):
        if l.rstrip().endswith("// refused"):
            k += 1
            if i not in hit:
                rep.violation("builds:" + l.split("//")[0].strip(), None, None, "this builds, and must not: %s" % l.split("//")[0].strip())
        elif l.rstrip().endswith("// accepted"):
            k += 1
            if i in hit:
                rep.violation("refused:" + l.split("//")[0].strip(), None, None, "this does not build, and must: %s" % l.split("//")[0].strip())
    rep.obligation("lines that must, or must not, build", k)
