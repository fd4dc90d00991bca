"""C12: protocol versions, error codes and dates."""
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from log import LEVELS, One, enum, right, table, value_cases  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from strs import flush  # noqa: E402

VERSIONS = {"v0_9": (9, "0.9"), "v1_0": (10, "1.0"), "v1_1": (11, "1.1"), "v2_0": (20, "2.0"), "v3_0": (30, "3.0")}


def versions(rep, prog):
    ver = enum(prog, "http::version")
    missing = [v for v in VERSIONS if v not in ver]
    if missing:
        raise facts.AnalysisError("the version %s is gone" % missing[0])
    n = table(rep, prog, "http::to_string", ver, {v: t for v, (_, t) in VERSIONS.items()}, "unknown", "version", "the text")
    n += table(rep, prog, "http::detail::to_impl_version", ver, {v: k for v, (k, _) in VERSIONS.items()}, 11, "number",
               "the protocol number")
    for f in fns(prog, "http::detail::from_impl_version", 1):
        it = Objs(prog, rep)
        st = St()
        k = sym(it.fresh("arg", unq(f["params"][0]["t"])))
        it.run_setup()
        res, thr = it.run(f, [k], st, None)
        for s, v in res:
            vs, other = value_cases(it, s, v, k, [x for x, _ in VERSIONS.values()])
            for name, (num, _) in VERSIONS.items():
                if num in vs:
                    n += 1
                    if not right(it, s, v, ver[name]):
                        rep.violation("from:" + name, f, None, "the protocol number %d does not give %s" % (num, name))
            if other:
                n += 1
                if not right(it, s, v, ver["unknown"]):
                    rep.violation("from:other", f, None, "a number of no protocol version does not give 'unknown'")
        rep.analysed(f)
        flush(rep, it, f["sqn"])
    rep.obligation("protocol numbers compared", n)


class Codes(Objs):
    def hook_call(self, fn, st, this, args, e):
        if fn.get("n") == "error_code" and "std::" in fn.get("qn", "") and not args:
            s = st.copy()
            l = this if this is not None else self.tmp("std::error_code")
            s.mem[l] = Tok("nocode")
            return [(s, Ref(l))]
        if fn.get("n") == "error_code" and "std::" in fn.get("qn", "") and len(args) == 2:
            v, c = args
            if isinstance(v, Ref):
                v = self.load(v.loc, "int", st)
            s = st.copy()
            l = this if this is not None else self.tmp("std::error_code")
            s.mem[l] = Tok("code", v, c.loc if isinstance(c, Ref) else c)
            return [(s, Ref(l))]
        return Objs.hook_call(self, fn, st, this, args, e)


def errors(rep, prog):
    n = 0
    for space, en, cat, what in (("web", "error", "error_category", "a web error"),
                                 ("web::middleware::detail", "brotli_error", "brotli_error_category", "a brotli error")):
        vals = enum(prog, space + "::" + en)
        homes = {}
        for f, num in [(x, v) for x in fns(prog, space + "::make_error_code", 1) if x["params"][0]["t"].endswith("::" + en)
                       for v in vals.values()]:
            it = Codes(prog, rep)
            st = St()
            k = Lin(num)
            it.run_setup()
            res, thr = it.run(f, [k], st, None)
            for s, v in res:
                t = s.mem.get(v.loc) if isinstance(v, Ref) else v
                if isinstance(t, Tok) and t.k[:1] == ("nocode",):
                    t = Tok("code", Lin(0), None)
                if not (isinstance(t, Tok) and t.k[0] == "code"):
                    raise facts.AnalysisError("what make_error_code gives is not recognised")
                n += 1
                if not it.same(s, t.k[1], k):
                    rep.violation("code:%s:value" % en, f, None, "the code of %s has another value" % what)
                c = t.k[2]
                root = c[0] if isinstance(c, tuple) and c else None
                g = prog.var_by_id.get(root[2]) if root and root[0] == "g" and len(root) > 2 else None
                homes[c] = f
                if root and root[0] in ("t", "v"):
                    rep.violation("code:%s:category" % en, f, None, "the category of %s's code does not outlive the call" % what)
            rep.analysed(f)
            flush(rep, it, f["sqn"])
            # an error's code must test as an error
            n += 1
            if num == 0:
                rep.violation("code:%s:zero:%s" % (en, [x for x in vals if vals[x] == num][0]), f, None,
                              "the code of %s tests as 'no error'" % what)
        if len(homes) > 1:
            rep.violation("code:%s:homes" % en, list(homes.values())[0], None, "codes of %s have different categories" % what)
        seen = {}
        for f in [x for x in fns(prog, "%s::%s::message" % (space, cat), 1)]:
            it = Codes(prog, rep)
            st = St()
            k = sym(it.fresh("e", "int"))
            it.run_setup()
            loc = it.tmp(unq(f["rec"]))
            res, thr = it.run(f, [k], st, loc)
            for s, v in res:
                t = it.as_text(v, s)
                if not isinstance(t, Str):
                    raise facts.AnalysisError("a message is not a constant text")
                vs, other = value_cases(it, s, v, k, list(vals.values()))
                for name, num in vals.items():
                    if num in vs:
                        n += 1
                        if not t.s:
                            rep.violation("message:%s:%s" % (en, name), f, None, "%s (%s) has no message" % (what, name))
                        if seen.setdefault(t.s, name) != name:
                            rep.violation("message:%s:%s" % (en, name), f, None, "%s (%s) has the message of another" % (what, name))
                if other and t.s:
                    rep.violation("message:%s:other" % en, f, None, "a value that is no error has a message")
            rep.analysed(f)
            flush(rep, it, f["sqn"])
    rep.obligation("error codes compared", n)


# ---- dates
CHRONO = {"T": ["H", ":", "M", ":", "S"], "R": ["H", ":", "M"], "h": ["b"], "F": ["Y", "-", "m", "-", "d"], "D": ["m", "/", "d", "/", "y"],
          "n": ["\n"], "t": ["\t"]}


def pieces(fmt):
    """the characters and fields a chrono format writes"""
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            c = fmt[i + 1]
            out += [x if len(x) == 1 and not x.isalpha() else "%" + x for x in CHRONO[c]] if c in CHRONO else ["%" + c] if c != "%" else ["%%"]
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return out


class Dates(Objs):
    OWN = ("floor", "ceil", "round", "time_point_cast", "to_sys", "from_sys", "to_utc", "from_utc", "clock_cast")

    def term(self, st, v):
        if isinstance(v, (Ref, Ptr)) and v.loc is not None:
            return st.mem.get(v.loc, v)
        return v

    def hook_call(self, fn, st, this, args, e):
        n, q = fn.get("n"), fn.get("qn", "")
        if "std::" in q and "chrono" in q + str(fn.get("rec", "")) or "__file_clock" in q:
            if n in self.OWN and len(args) == 1:
                to = ""
                if n in ("floor", "ceil", "round", "time_point_cast"):
                    to = unq(e.get("t", ""))
                return [(st, Tok(n, to, self.term(st, args[0])))]
            if n in ("operator==", "operator<=>", "operator<") and len(args) == 2:
                return [(st, Tok(n, self.term(st, args[0]), self.term(st, args[1])))]
            if n == "time_point" and len(args) == 1 and this is not None:
                s = st.copy()
                s.mem[this] = self.term(st, args[0])
                return [(s, Ref(this))]
        if q.startswith("fmt::") and n == "format" and len(args) == 2:
            return [(st, Tok("formatted", self.term(st, args[0]), self.term(st, args[1])))]
        if q.startswith("fmt::") and len(args) == 1 and n in ("basic_format_string", "fstring", "runtime"):
            t = self.term(st, args[0])
            return [(st, t if isinstance(t, Str) else self.as_text(args[0], st))]
        return Objs.hook_call(self, fn, st, this, args, e)


SECONDS = re.compile(r"duration<long(, std::ratio<1(, 1)?>)?>+$")
NS = "std::ratio<1, 1000000000>"


def plain(t):
    """a time term without conversions between clocks of the same instant"""
    while isinstance(t, Tok) and (t.k[0] in ("to_sys", "from_sys", "to_utc", "from_utc", "clock_cast") or
                                  t.k[0] in ("round", "floor", "ceil", "time_point_cast") and NS in t.k[1]):
        t = t.k[2]
    return t


def dates(rep, prog):
    D = "http::header::date"
    cls = prog.rec_by_type.get("fitoria::" + D)
    if cls is None or len(cls["fields"]) != 1:
        raise facts.AnalysisError("a date's fields are not the ones known")
    fld = cls["fields"][0]["n"]
    n = 0

    def at(f, args=(), init=True):
        it = Dates(prog, rep)
        st = St()
        it.run_setup()
        loc = it.tmp("fitoria::" + D)
        if init:
            st.mem[loc + (("f", fld),)] = Tok("time")
        al = []
        for i, a in enumerate(args):
            l = (("ext", "arg%d" % i),)
            st.mem[l] = a
            al.append(Ref(l))
        res, thr = it.run(f, al, st, loc)
        rep.analysed(f)
        flush(rep, it, f["sqn"])
        return it, loc, res

    for f in fns(prog, D + "::date", 1):
        if unq(f["params"][0]["t"]).rstrip("& ").endswith("date"):
            continue
        it, loc, res = at(f, [Tok("given")], False)
        for s, v in res:
            n += 1
            if plain(s.mem.get(loc + (("f", fld),))) != Tok("given"):
                rep.violation("date:ctor", f, None, "a date is not the instant it was made from")
    for m in ("utc_time", "file_time"):
        for f in fns(prog, D + "::" + m, 0):
            it, loc, res = at(f)
            for s, v in res:
                n += 1
                if plain(it.term(s, v)) != Tok("time"):
                    rep.violation("date:" + m, f, None, "%s is not the date's instant" % m)
    for f in fns(prog, D + "::to_string", 0):
        it, loc, res = at(f)
        for s, v in res:
            t = it.term(s, v)
            if not (isinstance(t, Tok) and t.k[0] == "formatted" and isinstance(t.k[1], Str)):
                raise facts.AnalysisError("how a date is written is not recognised")
            n += 1
            text = t.k[1].s
            a, b = text.find("{:"), text.find("}")
            if a < 0 or b < a:
                raise facts.AnalysisError("how a date is written is not recognised")
            got = list(text[:a]) + pieces(text[a + 2:b]) + list(text[b + 1:])
            if got != pieces("%a, %d %b %Y %T GMT"):
                rep.violation("date:format", f, None, "a date is not written in the form RFC 9110 prescribes")
            x = t.k[2]
            # whole seconds, rounded down
            if not (isinstance(x, Tok) and x.k[0] == "floor" and SECONDS.search(x.k[1]) and plain(x.k[2]) == Tok("time")):
                if isinstance(x, Tok) and x.k[0] in ("floor", "ceil", "round", "time_point_cast", "time"):
                    rep.violation("date:seconds", f, None, "a date is not written with the second its instant lies in")
                else:
                    raise facts.AnalysisError("which instant a date writes is not recognised")
    for op in ("operator==", "operator<=>"):
        for f in [x for x in fns(prog, "http::header::" + op, 2) + fns(prog, D + "::" + op, 2)
                  if all(unq(y["t"]).rstrip("& ") == "fitoria::" + D for y in x["params"])]:
            n += 1
            if f.get("defaulted"):      # member by member: the only member is the instant
                continue
            it = Dates(prog, rep)
            st = St()
            it.run_setup()
            ls = [(("ext", x),) for x in "ab"]
            for x, l in zip("ab", ls):
                it.lty[l] = "fitoria::" + D
                st.mem[l + (("f", fld),)] = Tok("time", x)
            res, thr = it.run(f, [Ref(l) for l in ls], st, None)
            for s, v in res:
                n += 1
                v = it.term(s, v)
                ab = (Tok("time", "a"), Tok("time", "b"))
                if v not in (Tok(op, *ab), Tok(op, *ab[::-1]) if op == "operator==" else None):
                    rep.violation("date:" + op, f, None, "dates do not compare as their instants do")
            rep.analysed(f)
            flush(rep, it, f["sqn"])
    rep.obligation("dates compared", n)


# ---- values written through fmt
class Fmts(One):
    """the context of a format call: where it writes is opaque, what is written is recorded"""

    def hook_call(self, fn, st, this, args, e):
        n, q = fn.get("n"), fn.get("qn", "")
        if n == "out" and not args and "context" in q:
            return [(st, Tok("out"))]
        if n in ("begin", "end") and not args and "parse_context" in q:
            return [(st, Ptr((("txt", self.spec.root),), self.spec.lo if n == "begin" else self.spec.hi))]
        if n == "format" and len(args) == 2 and q.startswith("fmt::") and this is not None and not fn.get("body"):
            return [(st, Tok("wrote", self.content(args[0], st)))]
        if n == "format_to" and q.startswith("fmt::") and len(args) == 2 and args[0] == Tok("out"):
            t = self.as_text(args[1], st)
            if isinstance(t, Str) and "{" not in t.s.replace("{{", "") and "}" not in t.s.replace("}}", ""):
                return [(st, Tok("wrote", Str(t.s.replace("{{", "{").replace("}}", "}"))))]
        if n in ("basic_format_string", "fstring") and len(args) == 1:
            return [(st, self.as_text(args[0], st))]
        if n == "copy" and q == "std::copy" and len(args) == 3 and args[2] == Tok("out"):
            a, b = args[:2]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc == b.loc and a.off.const and b.off.const:
                r = a.loc[0]
                if isinstance(r, tuple) and r[0] == "chars" and isinstance(r[1], Str):
                    return [(st, Tok("wrote", Str(r[1].s[a.off.c:b.off.c])))]
        return One.hook_call(self, fn, st, this, args, e)

    def content(self, a, st):
        """what a value is, for the purpose of writing it"""
        l = a.loc if isinstance(a, Ref) else a
        while isinstance(st.mem.get(l), Ref):
            l = st.mem[l].loc
        return self.as_text(Ref(l), st) if isinstance(l, tuple) else a


def formats(rep, prog):
    n = 0
    ver = enum(prog, "http::version")
    lvl = enum(prog, "log::level")
    kinds = {"version": (ver, {v: t for v, (_, t) in VERSIONS.items()}, "unknown"),
             "level": (lvl, {x: x.upper() for x in LEVELS}, "UNKNOWN")}
    for f, has in [(x, h) for x in fns(prog, "fmt::formatter::format", 2) if "fitoria" in unq(x["params"][0]["t"])
                   for h in ("some", "none")]:
        ty = unq(f["params"][0]["t"]).rstrip("& ")
        what = sq(ty).split("::")[-1]
        vocab = what in ("optional", "expected")
        if what not in kinds and not vocab and what not in ("name_view", "mime_view"):
            continue
        if not vocab and has == "none":
            continue
        it = Fmts(prog, rep)
        st = St()
        loc = (("ext", "value"),)
        it.lty[loc] = ty
        arg = Ref(loc)
        it.run_setup()
        if what in kinds:
            arg = sym(it.fresh("arg", ty))
            want = None
        elif vocab:
            it.vset(loc, st, has)
            want = it.text("value", st)
            st.mem[loc + (("val",),)] = want
            it.lty[loc + (("val",),)] = targs(ty)[0]
            if has == "none":
                want = Str("{nullopt}" if what == "optional" else "{unexpected}")
        else:
            # the text the view was made from: the member that holds it, wherever it is declared
            want = it.text("value", st)
            l = loc
            while True:
                r = prog.rec_by_type.get(unq(it.lty[l]))
                tf = [x for x in r["fields"] if it.base(x["t"]) in TXT] or \
                     [x for x in r["fields"] if it.base(x["t"]).endswith("name_view")] if r else []
                if not tf:
                    break
                l2 = l + (("f", tf[0]["n"]),)
                it.lty[l2] = unq(tf[0]["t"])
                l = l2
                if it.base(tf[0]["t"]) in TXT:
                    break
            st.mem[l] = want
        res, thr = it.run(f, [arg, Ref((("ext", "ctx"),))], st, it.tmp(unq(f["rec"])))
        for s, v in res:
            if not (isinstance(v, Tok) and v.k[0] == "wrote"):
                raise facts.AnalysisError("what formatting a %s writes is not recognised" % what)
            got = v.k[1]
            if what not in kinds:
                n += 1
                if not isinstance(got, (V, Str)):
                    raise facts.AnalysisError("what formatting a %s writes is not recognised" % what)
                if not same_view(it, s, got, want):
                    rep.violation("format:%s:%s" % (what, has), f, None, "formatting %s writes another text" %
                                  (("an empty " + what) if has == "none" else "a " + what))
                continue
            values, names, default = kinds[what]
            vs, other = value_cases(it, s, v, arg, list(values.values()))
            for name in [x for x in values if values[x] in vs] + [None] * other:
                n += 1
                if got != Str(names.get(name, default)):
                    rep.violation("format:%s:%s" % (what, name or "other"), f, None,
                                  "formatting a %s (%s) writes another text" % (what, name or "another value"))
        rep.analysed(f)
        flush(rep, it, f["sqn"])
    for f in [x for x in fns(prog, "fmt::formatter::parse", 1)]:
        what = "version" if "version" in f["rec"] else "level"
        it = Fmts(prog, rep)
        st = St()
        it.spec = it.text("spec", st)
        it.run_setup()
        res, thr = it.run(f, [Ref((("ext", "ctx"),))], st, it.tmp(unq(f["rec"])))
        for s, v in res + [(s, None) for s, x in thr]:
            e, ne = empty(it, s, it.spec)
            good, bad = list(e), []
            for x in ne:
                dom = it.dom_at(it.spec.root, it.spec.lo, x)
                end = dec(it.spec.root, "}")
                good += [x] * bool(dom & end)
                bad += [x] * bool(dom - end)
            n += 1
            if v is None:
                if good:
                    rep.violation("parse:%s:refuses" % what, f, None, "formatting a %s refuses a plain {}" % what)
            else:
                if bad:
                    rep.violation("parse:%s:accepts" % what, f, None, "formatting a %s ignores format options" % what)
                if not (isinstance(v, Ptr) and v.loc == (("txt", it.spec.root),) and it.same(s, v.off, it.spec.lo)):
                    rep.violation("parse:%s:end" % what, f, None, "the end of the format options of a %s is misplaced" % what)
        rep.analysed(f)
        flush(rep, it, f["sqn"])
    rep.obligation("formats compared", n)


PARTS = {"versions": versions, "errors": errors, "dates": dates, "formats": formats}


def main(rep):
    prog = facts.load("core")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("results", sum(n for k, n in rep.obl if "compared" in k), 3)


if __name__ == "__main__":
    report.run("C12", "abstract interpretation over enumerations and time terms",
               "every version, error code and date has exactly its own number, text and instant", main)
