"""C11: log levels, filters, newlines, file names, records and formatters."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from absint import Out  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from strs import flush  # noqa: E402

LEVELS = ["trace", "debug", "info", "warning", "error", "fatal"]
FLT = "log::filter"


def enum(prog, q):
    r = {}
    for x, e in prog.enums.items():
        if x == q or x.endswith("::" + q):
            for c in e["vals"]:
                r[c[0]] = int(c[1])
    if not r:
        raise facts.AnalysisError("%s is gone" % q)
    return r


def value_cases(it, s, v, k, values):
    """[(state, value or None)]: which of the values may the symbolic number k have here"""
    out = []
    for n in values:
        t = it.assume_le(s, k - n)
        t = t and it.assume_le(t, Lin(n) - k)
        if t is not None and not any(d == k - n or -d == k - n for d in t.ne):
            out.append(n)
    other = s
    for n in values:
        _, f = it.branch(other, it.cmp_lin("==", k - n)) if other is not None else (None, [])
        other = f[0] if f else None
    return out, other is not None


class One(Objs):
    """loops whose course is known are unrolled"""
    most = 64

    def loop(self, n, sts, cond, body, inc, post=False):
        out = Out()
        for st in sts:
            o = None if post else self.unroll(n, st, cond, body, inc)
            if o is None:
                o = Objs.loop(self, n, [st], cond, body, inc, post)
            out.n += o.n
            out.b += o.b
            out.c += o.c
        return out

    def unroll(self, n, st, cond, body, inc):
        out = Out()
        rets = [list(r) for r in self.rets]
        tc = [list(r) for r in self.tc]
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            t, f = cond(s)
            if (t and f) or i > self.most:
                self.rets[:] = rets
                self.tc[:] = tc
                return None
            out.n += f
            for x in t:
                o = self.ex(body, x)
                out.n += o.b
                for y in o.n + o.c:
                    if inc is not None:
                        work += [(z, i + 1) for z, _ in self.ev(inc, y)]
                    else:
                        work.append((y, i + 1))
        return out


def start(prog, rep, f, cls=One):
    it = cls(prog, rep)
    st = St()
    return it, st


def table(rep, prog, qn, values, want, default, key, what):
    """an enumerator -> text table, for every value of the enumeration's type"""
    n = 0
    for f in fns(prog, qn, 1):
        it, st = start(prog, rep, f)
        k = sym(it.fresh("arg", unq(f["params"][0]["t"])))
        it.run_setup()
        loc = it.tmp(unq(f["rec"])) if f.get("rec") else None
        res, thr = it.run(f, [k], st, loc)
        for s, v in res:
            got = it.as_text(v, s) if isinstance(v, (Ref, V, Str)) else v
            vs, other = value_cases(it, s, v, k, list(values.values()))
            for name, num in values.items():
                if num in vs:
                    n += 1
                    w = want.get(name, default)
                    if w is None:
                        continue
                    if not right(it, s, got, w):
                        rep.violation("%s:%s" % (key, name), f, None, "%s of %s is not %r" % (what, name, w))
            if other and default is not None:
                n += 1
                if not right(it, s, got, default):
                    rep.violation("%s:other" % key, f, None, "%s of any other value is not %r" % (what, default))
        if thr:
            rep.violation("%s:throw" % key, f, None, "%s may throw" % what)
        rep.analysed(f)
        flush(rep, it, qn)
    rep.obligation("table entries compared in " + qn, n)
    return n


def right(it, s, got, w):
    if isinstance(w, int):
        return isinstance(got, Lin) and it.same(s, got, Lin(w))
    if isinstance(got, Ref):
        got = it.as_text(got, s)
    return isinstance(got, (V, Str)) and same_view(it, s, got, Str(w))


def names(rep, prog):
    lv = enum(prog, "log::level")
    table(rep, prog, "log::to_string", lv, {n: n.upper() for n in LEVELS}, "UNKNOWN", "name", "the name")
    table(rep, prog, "log::get_newline", enum(prog, "log::newline_style"), {"lf": "\n", "crlf": "\r\n", "cr": "\r", "system": "\n"}, None,
          "newline", "the newline")


def levels(rep, prog):
    lv = enum(prog, "log::level")
    n = 0
    for f in fns(prog, "log::to_level", 1):
        it, st = start(prog, rep, f)
        a = it.text("text", st)
        it.run_setup()
        res, thr = it.run(f, [a], st, None)
        for s, v in res:
            n += 1
            hit = None
            for name in LEVELS:
                # can the text be this name, in some letter case?
                if all_match(it, s, a, name):
                    hit = name
                    if not right(it, s, v, lv[name]):
                        rep.violation("level:" + name, f, None, "the text %r, in some letter case, does not give that level" % name)
            if hit is None or not is_exactly(it, s, a, hit):
                # some other text ends here too
                other = True
                if hit is not None:
                    other = not is_exactly(it, s, a, hit)
                if other and not right(it, s, v, lv["off"]):
                    rep.violation("level:other", f, None, "a text that names no level does not give 'off'")
        if thr:
            rep.violation("level:throw", f, None, "to_level may throw")
        rep.analysed(f)
        flush(rep, it, "log::to_level")
    rep.obligation("texts compared in to_level", n)


def all_match(it, s, a, name):
    """may the text be name in some letter case"""
    t = it.assume_le(s, a.n - len(name))
    t = t and it.assume_le(t, Lin(len(name)) - a.n)
    if t is None:
        return False
    for i, c in enumerate(name):
        d = it.dom_at(a.root, a.lo + i, t)
        if not d & bset(c + c.upper()):
            return False
    for k, v in t.facts.items():
        if refutes(it, t, k, v, a, name):
            return False
    return True


def refutes(it, s, k, v, a, name):
    """a recorded comparison of the lower-cased text with a literal that excludes this name"""
    if not (isinstance(k, Bo) and k.k == "at" and k.p[0] == "texteq"):
        return False
    x, y = k.p[1:]
    if isinstance(x, Str):
        x, y = y, x
    if not (isinstance(x, V) and isinstance(y, Str)):
        return False
    return v is False and y.s == name or v is True and y.s != name


def is_exactly(it, s, a, name):
    return it.same(s, a.n, Lin(len(name))) and all(it.dom_at(a.root, a.lo + i, s) <= bset(c + c.upper())
                                                    for i, c in enumerate(name))


def file_name(rep, prog):
    st_ = enum(prog, "log::file_name_style")
    n = 0
    for f in fns(prog, "log::get_file_name", 2):
        for style, num in st_.items():
            it, st = start(prog, rep, f)
            a = it.text("path", st)
            it.run_setup()
            res, thr = it.run(f, [Lin(num), a], st, None)
            for s, v in res:
                n += 1
                if style == "full_path":
                    ok = same_view(it, s, it.as_text(v, s) if isinstance(v, Ref) else v, a)
                else:
                    ok = True
                    for s2, p in it.find_model(s, a, bset("\\/"), back=True):
                        w = a if p == Lin(NPOS) else V(a.root, a.lo + p + 1, a.hi)
                        ok = ok and same_view(it, s2, it.as_text(v, s2) if isinstance(v, Ref) else v, w)
                if not ok:
                    rep.violation("file:" + style, f, None, "get_file_name(%s) gives another part of the path" % style)
            if thr:
                rep.violation("file:throw", f, None, "get_file_name may throw")
            flush(rep, it, "log::get_file_name")
        rep.analysed(f)
    rep.obligation("results compared in get_file_name", n)


# ---- filters
class Filt(One):
    """a filter's flags are one unknown byte (there are seven levels)"""
    elem = None

    def other_range(self, n, rl, st):
        if self.elem is None or st.mem.get(rl) != Tok("levels"):
            return One.other_range(self, n, rl, st)
        fr = self.frames[-1]
        vloc = (("v", fr.fid, n["var"]["id"]),)
        s = st.copy()
        self.flags_to(s, U(("fl",), range(256)))
        s.mem[self.eloc] = Lin(self.elem)
        self.lty[self.eloc] = "fitoria::log::level"
        if is_ref(n["var"]["t"]):
            s.mem[vloc] = Ref(self.eloc)
        else:
            s.mem[vloc] = Lin(self.elem)
        o = self.ex(n["body"], s)
        self.rounds += o.n + o.c
        if o.b:
            self.stops = True
        out = Out()
        out.n.append(st)
        return out

    def compare(self, op, a, b, st, e=None):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and x.loc is None and isinstance(y, (V, Str)) and op in ("==", "!="):
                return FALSE if op == "==" else TRUE
        return One.compare(self, op, a, b, st, e)

    def hook_call(self, fn, st, this, args, e):
        if fn.get("n") == "basic_string_view" and len(args) == 1 and args[0] == Ptr(None):
            self.rep.violation("filter:null", self.frames[-1].fn, e.get("l"), "reads a text through a null pointer")
            return []
        return One.hook_call(self, fn, st, this, args, e)

    def flags_to(self, s, v):
        s.mem[self.floc] = v


def byteset(it, s):
    return s.dom.get(("B", ("fl",)), frozenset(range(256)))


def allowed(it, prog, s, loc, level):
    """set of flag bytes for which is_allowed(level) holds in state s"""
    f = fns(prog, FLT + "::is_allowed", 1)[0]
    e = {"k": "CXXMemberCallExpr", "t": "bool", "args": [], "l": f["l"]}
    it.rets.append([])
    it.tc.append([])
    r = it.call_body(f, loc, [Lin(level)], s, e)
    it.rets.pop()
    if it.tc.pop():
        raise facts.AnalysisError("is_allowed may throw")
    yes, no = set(), set()
    for s2, v in r:
        t, f2 = it.branch(s2, it.to_bool(it.load(v.loc, "bool", s2) if isinstance(v, Ref) else v, s2))
        for x in t:
            yes |= byteset(it, x)
        for x in f2:
            no |= byteset(it, x)
    if yes & no:
        raise facts.AnalysisError("is_allowed is not decided by the filter's flags")
    return frozenset(yes)


def filters(rep, prog):
    lv = enum(prog, "log::level")
    every = frozenset(range(256))
    n = 0
    rec = prog.rec_by_type.get("fitoria::log::filter")
    flds = [x["n"] for x in rec["fields"]]
    if len(flds) != 1:
        raise facts.AnalysisError("a filter has more than one field")

    def judge(it, s, loc, want, what, f, key):
        nonlocal n
        for name in LEVELS + ["off"]:
            n += 1
            a = allowed(it, prog, s, loc, lv[name])
            if bool(a) != (name in want) or (a and not a >= byteset(it, s)):
                rep.violation("filter:%s" % key, f, None, "%s %s %s" % (what, "lets through" if a else "stops", name))
    # at_least, all
    for f in fns(prog, FLT + "::at_least", 1):
        for name in LEVELS + ["off"]:
            it, st = start(prog, rep, f, Filt)
            it.run_setup()
            res, thr = it.run(f, [Lin(lv[name])], st, None)
            for s, v in res:
                judge(it, s, v.loc, [x for x in LEVELS if lv[x] >= lv[name]], "a filter for %s and above" % name, f, "least")
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    for f in fns(prog, FLT + "::all", 0):
        it, st = start(prog, rep, f, Filt)
        it.run_setup()
        res, thr = it.run(f, [], st, None)
        for s, v in res:
            judge(it, s, v.loc, LEVELS, "a filter for everything", f, "all")
        rep.analysed(f)
    # a list of levels: by induction over the list
    for f in [x for x in fns(prog, FLT + "::filter", 1) if "initializer_list" in x["params"][0]["t"]]:
        for name in LEVELS + ["off"]:
            it, st = start(prog, rep, f, Filt)
            it.run_setup()
            loc = it.tmp("fitoria::log::filter")
            it.floc = loc + (("f", flds[0]),)
            it.eloc = (("ext", "element"),)
            st.mem[(("ext", "levels"),)] = Tok("levels")
            it.elem, it.rounds, it.stops = lv[name], [], False
            res, thr = it.run(f, [Ref((("ext", "levels"),))], st, loc)
            if not it.rounds:
                raise facts.AnalysisError("the filter's list of levels is not read in a loop over it")
            for s, v in res:
                judge(it, s, loc, [], "a filter for an empty list", f, "list")
            if it.stops:
                rep.violation("filter:list", f, None, "a filter's list of levels is not read to its end")
            for s in it.rounds:
                for x in LEVELS + ["off"]:
                    n += 1
                    s0 = s.copy()
                    it.flags_to(s0, U(("fl",), range(256)))
                    before = allowed(it, prog, s0, loc, lv[x])
                    after = allowed(it, prog, s, loc, lv[x])
                    want = every if x == name and x != "off" else before
                    if after != want:
                        rep.violation("filter:list", f, None, "adding %s to a filter's list %s %s" % (
                            name, "lets through" if after - want else "stops", x))
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    # from the environment
    for f in fns(prog, FLT + "::from_env", 0):
        for name in [None] + LEVELS + ["off"]:
            it, st = start(prog, rep, f, Filt)
            it.run_setup()
            asked = []

            def getenv(fn, s, this, args, e, name=name):
                a = args[0]
                t = s.mem.get(a.loc) if isinstance(a, (Ptr, Ref)) else a
                asked.append(t.s if isinstance(t, Str) else None)
                if name is None:
                    return [(s, Ptr(None))]
                s = s.copy()
                a = it.text("env", s)
                s.cons = s.cons + (a.n - len(name), Lin(len(name)) - a.n)
                for i, c in enumerate(name):
                    s.dom[("B", it.chsym(a.root, a.lo + i, s))] = bset(c + c.upper())
                return [(s, a)]
            it.models["getenv"] = it.models["std::getenv"] = getenv
            res, thr = it.run(f, [], st, None)
            if asked != ["CPP_LOG"]:
                rep.violation("filter:variable", f, None, "the environment's filter does not read CPP_LOG")
            for s, v in res:
                judge(it, s, v.loc, [] if name is None else [x for x in LEVELS if lv[x] >= lv[name]],
                      "the environment's filter, with %s," % (name and "level " + name or "the variable unset"), f, "env")
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    rep.obligation("filter decisions compared", n)


# ---- records and formatters
class Line(One):
    """texts put together by fmt are terms over what was formatted"""

    def val(self, st, v, ty=""):
        if isinstance(v, (Ref, Ptr)) and v.loc is not None:
            m = st.mem.get(v.loc)
            if m is None and not (isinstance(v, Ref) and v.loc[0][0] == "strlit"):
                t = self.as_text(v, st) if isinstance(v, Ref) else None
                m = t if t is not None else self.load(v.loc, ty, st)
            if isinstance(m, Tok) and m.k[0] in ("view", "str"):
                m = self.as_text(Ref(v.loc), st) or m
            return m if m is not None else v
        return v

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        if self.base(unq(ty)) == "std::function" and len(args) == 1:
            s = st.copy()
            s.mem[loc] = self.val(s, args[0])
            return [s]
        return One.make(self, ty, loc, args, atys, st, e, rvalue)

    def hook_call(self, fn, st, this, args, e):
        n, q = fn.get("n"), fn.get("qn", "")
        if n in ("operator->", "operator*", "get") and "shared_ptr" in q:
            return [(st, Ptr(self.rec) if n != "operator*" else Ref(self.rec))]
        if q.startswith("fmt::"):
            if n == "arg" and len(args) == 2:
                k = self.val(st, args[0])
                return [(st, Tok("arg", k.s if isinstance(k, Str) else repr(k), self.val(st, args[1], e["args"][1].get("t", ""))))]
            if n in ("runtime", "basic_format_string", "basic_runtime", "fstring", "operator basic_string_view"):
                return [(st, self.val(st, args[0] if args else Ref(this)))]
            if n == "styled" and len(args) == 2:
                return [(st, Tok("styled", self.val(st, args[0]), self.val(st, args[1])))]
            if n == "format":
                return [(st, Tok("text", (Tok("formatted", *[self.val(st, a) for a in args]),)))]
        if n == "operator()" and "function" in q:
            o = self.val(st, Ref(this)) if this else None
            return [(st, Tok("style", *[self.val(st, a) for a in args]))]
        if n in ("operator+=", "append", "operator+") and "basic_string" in q + str(fn.get("rec", "")):
            a = ([Ref(this)] if this is not None else []) + list(args)
            x, y = [self.val(st, t) for t in a[:2]]
            if isinstance(x, Tok) and x.k[0] == "text":
                r = Tok("text", x.k[1] + (y,))
                if n == "operator+":
                    return [(st, r)]
                s = st.copy()
                s.mem[a[0].loc] = r
                return [(s, a[0])]
        return One.hook_call(self, fn, st, this, args, e)


def lines(rep, prog):
    """formatter::format: every named part of the line is the record's"""
    rec = prog.rec_by_type.get("fitoria::log::record")
    cls = prog.rec_by_type.get("fitoria::log::formatter")
    if rec is None or cls is None:
        raise facts.AnalysisError("record or formatter is gone")
    styles = enum(prog, "log::file_name_style")
    lv = enum(prog, "log::level")
    newlines = {k: v for k, v in enum(prog, "log::newline_style").items() if k != "system"}
    n = 0
    for f in [x for x in fns(prog, "log::formatter::format", 1) if "record" in x["params"][0]["t"]]:
        for style in styles.values():
            for coloured in (False, True):
                it, st = start(prog, rep, f, Line)
                it.rec = (("ext", "record"),)
                F = lambda x: it.rec + (("f", x),)
                st.mem[F("time")] = Tok("time")
                st.mem[F("msg")] = msg = it.text("msg", st)
                st.mem[F("file_name")] = file = it.text("file", st)
                st.mem[F("function_name")] = func = it.text("function", st)
                for x in ("line", "column", "lv"):
                    st.mem[F(x)] = sym(it.fresh(x, "unsigned int" if x != "lv" else "fitoria::log::level"))
                it.run_setup()
                loc = it.tmp("fitoria::log::formatter")
                own = lambda key: loc + (("f", [x["n"] for x in cls["fields"] if key in x["t"]][0]),)
                st.mem[own("format_string")] = Tok("pattern")
                nl = it.fresh("newline", "fitoria::log::newline_style")
                st.mem[own("newline_style")] = sym(nl)
                st.mem[own("file_name_style")] = Lin(style)
                it.vset(own("optional"), st, "some" if coloured else "none")
                res, thr = it.run(f, [Ref((("ext", "ptr"),))], st, loc)
                for s, v in res:
                    got = it.val(s, v)
                    if got == Str("") or isinstance(got, Tok) and got.k[0] == "text" and len(got.k[1]) == 1 and not any(
                            isinstance(a, Str) for a in got.k[1][0].k[2:]):
                        rep.violation("line:newline", f, None, "the line does not end with the chosen newline")
                        continue
                    if not (isinstance(got, Tok) and got.k[0] == "text" and len(got.k[1]) == 2 and isinstance(got.k[1][0], Tok) and
                            got.k[1][0].k[0] == "formatted"):
                        raise facts.AnalysisError("the line is not one formatted text followed by the newline")
                    body, end = got.k[1]
                    if body.k[1] != Tok("pattern"):
                        rep.violation("line:pattern", f, None, "the line is not formatted by the formatter's pattern")
                    parts = {a.k[1]: a.k[2] for a in body.k[2:] if isinstance(a, Tok) and a.k[0] == "arg"}
                    level = s.mem[F("lv")]
                    for key, want in (("TIME", Tok("time")), ("MSG", msg), ("LINE", s.mem[F("line")]), ("COL", s.mem[F("column")]),
                                      ("FUNC", func)):
                        n += 1
                        g = parts.get(key)
                        if g is None or not (same_view(it, s, g, want) if isinstance(want, V) else g == want):
                            rep.violation("line:" + key, f, None, "the line's %s is not the record's" % key)
                    g = parts.get("FILE")
                    for s2, w in ([(s, file)] if style == styles["full_path"] else
                                  [(s2, file if p == Lin(NPOS) else V(file.root, file.lo + p + 1, file.hi))
                                   for s2, p in it.find_model(s, file, bset("\\/"), back=True)]):
                        n += 1
                        if g is None or not same_view(it, s2, g, w):
                            rep.violation("line:FILE", f, None, "the line's FILE is not the record's file name in the chosen style")
                    g = parts.get("LV")
                    n += 1
                    if coloured:
                        if g != Tok("text", (Tok("formatted", Str("{}"), Tok("styled", level, Tok("style", level))),)):
                            rep.violation("line:LV", f, None, "the line's LV is not the record's level in the chosen style")
                    else:
                        vs, other = value_cases(it, s, None, level, list(lv.values()))
                        for name, num in lv.items():
                            if num in vs and not right(it, s, g, name.upper() if name in LEVELS else "UNKNOWN"):
                                rep.violation("line:LV", f, None, "the line's LV is not the name of the record's level")
                    vs, other = value_cases(it, s, None, sym(nl), list(newlines.values()))
                    for name, num in newlines.items():
                        n += 1
                        if num in vs and not right(it, s, end, {"lf": "\n", "crlf": "\r\n", "cr": "\r"}[name]):
                            rep.violation("line:newline", f, None, "the line does not end with the chosen newline")
        rep.analysed(f)
        flush(rep, it, f["sqn"])
    rep.obligation("lines compared", n)


def setters(rep, prog):
    """builders keep what they are given, and hand it on; records keep what they are made of"""
    n = 0
    B = "log::formatter::builder"
    bld, cls = prog.rec_by_type.get("fitoria::" + B), prog.rec_by_type.get("fitoria::log::formatter")
    field = lambda rec, key: [x["n"] for x in rec["fields"] if key in x["t"]][0]
    KEYS = ["format_string", "newline_style", "file_name_style", "optional"]
    for fname, key in (("set_pattern", KEYS[0]), ("set_newline_style", KEYS[1]), ("set_file_name_style", KEYS[2]),
                       ("set_level_style", KEYS[3]), ("set_color_level_style", KEYS[3]), ("build", None)):
        for f in fns(prog, B + "::" + fname):
            it, st = start(prog, rep, f, Line)
            loc = it.tmp("fitoria::" + B)
            init(it, st, loc, bld, "old")
            args = []
            if f["params"]:
                a = (("ext", "new"),)
                st.mem[a] = Tok("new")
                args = [Ref(a)] if key in (KEYS[0], KEYS[3]) else [sym(it.fresh("new", unq(f["params"][0]["t"])))]
            it.run_setup()
            res, thr = it.run(f, args, st, loc)
            for s, v in res:
                src, rec = (loc, bld) if key else (v.loc, cls)
                if key and not (isinstance(v, Ref) and v.loc == loc):
                    rep.violation("builder:chain:" + fname, f, None, "%s does not give the same builder back" % fname)
                for k in KEYS:
                    n += 1
                    got = content(it, s, src + (("f", field(rec, k)),))
                    want = content(it, st, loc + (("f", field(bld, k)),))
                    if k == key:
                        want = args[0] if args and isinstance(args[0], Lin) else Tok("new")
                        if k == "optional":
                            want = ("some", Tok("new"))
                            if not args:
                                got, want = got[0], "some"
                    if got != want:
                        rep.violation("builder:%s:%s" % (fname, k), f, None, "%s %s" % (
                            fname, "does not keep what it is given" if k == key else "changes another setting"))
            rep.analysed(f)
            flush(rep, it, f["sqn"])
    for f in [x for x in fns(prog, "log::record::record", 4)]:
        it, st = start(prog, rep, f, Line)
        loc = it.tmp("fitoria::log::record")
        t, src = (("ext", "time"),), (("ext", "loc"),)
        st.mem[t], st.mem[src] = Tok("time"), Tok("loc")
        msg = it.text("msg", st)
        texts = {x: it.text(x, st) for x in ("file_name", "function_name")}
        lv = sym(it.fresh("lv", "fitoria::log::level"))
        it.run_setup()
        for x in ("line", "column", "file_name", "function_name"):
            it.models["std::source_location::" + x] = it.models["source_location::" + x] = lambda fn, s, this, args, e, x=x: [(s, texts.get(x, Tok("loc", x)))]
        res, thr = it.run(f, [Ref(t), Ref(src), lv, msg], st, loc)
        for s, v in res:
            for x, w in (("time", Tok("time")), ("line", Tok("loc", "line")), ("column", Tok("loc", "column")), ("lv", lv)):
                n += 1
                if s.mem.get(loc + (("f", x),)) != w:
                    rep.violation("record:" + x, f, None, "a record's %s is not the one it was made with" % x)
            for x, w in list(texts.items()) + [("msg", msg)]:
                n += 1
                if not same_view(it, s, it.as_text(Ref(loc + (("f", x),)), s), w):
                    rep.violation("record:" + x, f, None, "a record's %s is not the one it was made with" % x)
        rep.analysed(f)
        flush(rep, it, f["sqn"])
    rep.obligation("settings compared", n)


def init(it, st, loc, rec, tag):
    for x in rec["fields"]:
        l = loc + (("f", x["n"]),)
        if "optional" in x["t"]:
            it.vset(l, st, "some")
            st.mem[l + (("val",),)] = Tok(tag, x["n"])
        elif "style" in x["t"]:
            st.mem[l] = sym(it.fresh(tag, unq(x["t"])))
        else:
            st.mem[l] = Tok(tag, x["n"])


def content(it, s, l):
    k = it.vstate(l, s)
    return (k, s.mem.get(l + (("val",),))) if k else s.mem.get(l)


PARTS = {"lines": lines, "setters": setters, "names": names, "levels": levels, "file": file_name, "filters": filters}


def main(rep):
    prog = facts.load("core")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("results", sum(n for k, n in rep.obl if "compared" in k), 4)


if __name__ == "__main__":
    report.run("C11", "abstract interpretation over enumerations, flag bytes and character sequences",
               "every level, filter, newline and file-name decision equals its specification", main)
