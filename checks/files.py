"""C23: a static file is served whole, in part, or not at all, as the request asks."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import handlers  # noqa: E402
import report  # noqa: E402
from handlers import Hand, status_of, tell, under  # noqa: E402
from message import MOVED, REQ, fill, show  # noqa: E402
from middleware import Chain  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from session import V, begin  # noqa: E402
from strs import flush  # noqa: E402

FILE = "fitoria::web::static_file"
ST = (("ext", "file"),)
SUB = "fitoria::http::header::range::subrange_t"
VALUES = ("http::header::entity_tag", "http::header::date", "http::header::if_none_match", "http::header::range", "mime::mime_view")


class Files(Chain):
    """a file, its size and time, and what headers say of them are terms and unknown numbers"""

    def __init__(self, prog, rep):
        Chain.__init__(self, prog, rep)
        self.size = sym(self.fresh("size", "unsigned long"))
        self.offset = sym(self.fresh("offset", "unsigned long"))
        self.length = sym(self.fresh("length", "unsigned long"))

    def any_term(self, v, st, e):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Ref) and self.vstate(v.loc, st) is not None:
            if self.vstate(v.loc, st) == "none":
                return V("none")
            return self.any_term(st.mem.get(v.loc + (("val",),)), st, e)
        s = self.lit(v, st)
        return Str(s) if s is not None else self.term(v, st, e)

    def sub(self, s, n):
        l = (("sub", n),)
        self.lty[l] = SUB
        for f, x in (("offset", self.offset if n == 0 else sym("offset@%d" % n)), ("length", self.length if n == 0 else sym("length@%d" % n))):
            k = l + (("f", f),)
            self.lty[k] = "unsigned long"
            s.mem[k] = x
        return l

    def failing(self, st, ecs, good, tag):
        """an operation that reports through an error code"""
        s, f = good.copy(), st.copy()
        for x in ecs:
            s.mem[x] = Tok("ec", None)
            f.mem[x] = Tok("ec", ("io", tag, 0))
        self.log(s, "io", tag, "ok")
        self.log(f, "io", tag, "error")
        return s, f

    def msg(self, n, q, rec, b, ctor, fn, st, this, args, e):
        if ("basic_stream_file" in rec or "basic_file" in rec) and this is not None:
            if n.startswith("~"):
                return [(st, VOID)]
            if n == "size":
                return [(st, self.size)]
            if n == "open":
                if len(args) < 3 or not isinstance(args[2], Ref):
                    raise AnalysisError("open() without an error code")
                g = st.copy()
                g.mem[this] = V("file", self.term(args[0], st, e))
                s, f = self.failing(st, [args[2].loc], g, "open")
                return [(s, VOID), (f, VOID)]
            if (ctor or n == "operator=") and len(args) == 1:
                if "basic_stream_file" in (self.argty(e, 0) or ""):
                    return self.take(st, this, args[0], e, 0)
                return self.hold(st, this, V("closed"))
            raise AnalysisError("%s() of a file" % n)
        if q == "std::filesystem::last_write_time" and len(args) == 2:
            w = self.term(args[0], st, e)
            s, f = self.failing(st, [args[1].loc], st, "time")
            return [self.give(s, e["t"], V("mtime", w)), self.give(f, e["t"], V("notime"))]
        if b == "std::filesystem::path" or "filesystem::path" in rec:
            if n.startswith("~"):
                return [(st, VOID)]
            if ctor:
                return self.hold(st, this, self.term(args[0], st, e))
            return [self.give(st, e["t"], V(n, self.term(Ref(this), st, e)))]
        if b.startswith("web::static_file") and this is not None and ctor and len(args) == 6:
            return self.hold(st, this, V("static", *[self.term(a, st, e) for a in args]))
        if rec == "web::static_file" and this is not None and self.is_term(Ref(this), st):
            if n.startswith("~"):
                return [(st, VOID)]
            if ctor and len(args) == 1:
                return self.take(st, this, args[0], e, 0)
        if rec == "web::static_file" and this is not None and ctor and len(args) == 1 and self.is_term(args[0], st):
            return self.take(st, this, args[0], e, 0)
        if b == "std::variant" and this is not None and (ctor or n.startswith("~")) and (
                "static_file::" in unq(e.get("t", "")) + unq(fn.get("rec") or "") + unq(self.lty.get(this, ""))):
            if n.startswith("~"):
                return [(st, VOID)]
            if len(args) == 1:
                t = sq(unq(self.argty(e, 0) or "")).replace("const ", "").rstrip("& ")
                if t.startswith("std::variant"):
                    return self.hold(st, this, self.term(args[0], st, e))
                t = t.split("::")[-1]
                if t == "subrange_t":
                    l = args[0].loc
                    return self.hold(st, this, V("state", t, st.mem.get(l + (("f", "offset"),)), st.mem.get(l + (("f", "length"),))))
                return self.hold(st, this, V("state", t))
        if b.startswith("web::static_file::") and this is not None:
            return [(st, Ref(this) if ctor else VOID)]
        if b == "http::header::range::subrange_t" and this is not None and (ctor or n == "operator=") and len(args) == 1:
            s = st.copy()
            for f in ("offset", "length"):
                s.mem[this + (("f", f),)] = st.mem.get(args[0].loc + (("f", f),))
                self.lty[this + (("f", f),)] = "unsigned long"
            return [(s, Ref(this))]
        if b in VALUES or q.startswith(VALUES):
            r = self.header_value(n, q, b, ctor, st, this, args, e)
            if r is not None:
                return r
        if n == "weakly_equal_to" or n == "strongly_equal_to":
            a = sorted((self.term(Ref(this), st, e), self.term(args[0], st, e)), key=repr)
            return self.ask(st, V(n, *a))
        if q in ("std::any_of", "std::none_of", "std::all_of") and len(args) == 3 and isinstance(args[0], Ptr) and isinstance(args[1], Ptr):
            return self.some(n, st, args, e)
        if n == "cmp_eq_ci" and this is None:
            a, c = args
            if self.lit(a, st) is not None:
                a, c = c, a
            return self.ask(st, V("same", self.term(a, st, e), Str((self.lit(c, st) or "?").lower())))
        if n in ("operator==", "operator!=") and len(args) == 2 and "normal_iterator" in q + (self.argty(e, 0) or ""):
            a, c = (st.mem.get(x.loc) if isinstance(x, Ref) else x for x in args)
            if isinstance(a, Ptr) and isinstance(c, Ptr) and a.loc == c.loc and a.off is not None and c.off is not None and a.off.const and c.off.const:
                return [(st, TRUE if (a.off.c == c.off.c) == (n == "operator==") else FALSE)]
        if n in ("operator==", "operator!=") and len(args) + (this is not None) == 2:
            a, c = ([Ref(this)] if this is not None else []) + list(args)
            if self.lit(a, st) is not None:
                a, c = c, a
            if self.is_term(a, st) and self.lit(c, st) is not None:
                r = self.ask(st, V("same", self.term(a, st, e), Str(self.lit(c, st))))
                return r if n == "operator==" else [(x, FALSE if v == TRUE else TRUE) for x, v in r]
        if q in ("fmt::format", "std::format"):
            return [self.give(st, e["t"], V("fmt", *[self.any_term(a, st, e) for a in args]))]
        if ("format_string" in b or "fstring" in b or b.startswith("fmt::")) and this is not None and ctor:
            return self.hold(st, this, self.any_term(args[0], st, e))
        if "chrono" in q or "chrono" in rec:
            if n.startswith("~"):
                return [(st, VOID)]
            w = ([self.any_term(Ref(this), st, e)] if this is not None and not ctor else []) + [self.any_term(a, st, e) for a in args]
            if ctor or n == "operator=":
                return self.hold(st, this, w[-1] if w else V("notime"))
            return self.scalar(st, e, V(n, *w))
        if n == "value_or" and this is not None and self.vstate(this, st) == "none":
            return [self.give(st, e["t"], self.any_term(args[0], st, e))]
        if n == "operator*" and "normal_iterator" in rec + q and not args[1:]:
            x = st.mem.get(this) if this is not None else args[0]
            if isinstance(x, Ptr) and x.off is not None and x.off.const and x.loc == (("tags",),):
                return [(st, Ref(x.loc + (("i", x.off),)))]
        if b == "web::async_readable_file_stream" and this is not None:
            if n.startswith("~"):
                return [(st, VOID)]
            if ctor and len(args) == 1 and "async_readable_file_stream" in (self.argty(e, 0) or ""):
                return self.take(st, this, args[0], e, 0)
            if ctor:
                return self.hold(st, this, V("part_of", *[self.any_term(a, st, e) for a in args]))
        if b == "overloaded" and this is not None and ctor:
            s = st.copy()
            for i, a in enumerate(args):
                s.mem[this + (("over", i),)] = a
            s.mem[this] = Tok("over", len(args))
            return [(s, Ref(this))]
        if q == "std::visit" and len(args) == 2:
            return self.visited_(st, args, e)
        return Chain.msg(self, n, q, rec, b, ctor, fn, st, this, args, e)

    def header_value(self, n, q, b, ctor, st, this, args, e):
        if n.startswith("~"):
            return [(st, VOID)]
        if this is None:
            if n == "parse" and "if_none_match" in q:
                w = self.term(args[0], st, e)
                out = []
                for y, v in self.maybe(st, V("is_list", w), e["t"], V("list", w)):
                    out += [(z, v) for z, k in self.case(y, V("tags", V("list", w)), (1, 2))] if self.vstate(v.loc, y) == "some" else [(y, v)]
                return out
            if n == "parse" and "range" in q:
                w = self.term(args[0], st, e)
                if args[1] != self.size:
                    self.complain(e, "reads a range against something else than the size of the file")
                return self.maybe(st, V("is_range", w), e["t"], V("range", w))
            if n in ("make_strong", "make_weak"):
                return [self.give(st, e["t"], V("tag", n, self.term(args[0], st, e)))]
            if n == "from_path":
                w = self.term(args[0], st, e)
                return self.maybe(st, V("known_type", w), e["t"], V("type_of", w))
            return None
        if ctor and len(args) == 1 and b == "http::header::date" and b not in sq(self.argty(e, 0) or ""):
            return self.hold(st, this, V("date", self.term(args[0], st, e)))
        if (ctor or n == "operator=") and len(args) == 1 and self.is_term(args[0], st):
            return self.take(st, this, args[0], e, 0, b == "http::header::entity_tag")
        w = self.held(Ref(this), st)
        if not (isinstance(w, Tok) and (w == MOVED or w.k[:1] == ("v",))):
            return None
        if n == "is_any":
            return self.ask(st, V("any", w))
        if n in ("begin", "end", "cbegin", "cend") and b == "http::header::if_none_match":
            out = []
            for s, k in self.case(st, V("tags", w), (1, 2)):
                s = s.copy()
                for i in range(k):
                    x = (("tags",), ("i", Lin(i)))
                    self.lty[x] = "fitoria::http::header::entity_tag"
                    s.mem[x] = V("tag_at", w, i)
                out.append((s, Ptr((("tags",),), Lin(0 if "begin" in n else k))))
            return out
        if n in ("operator[]", "at", "front", "begin") and b == "http::header::range":
            i = args[0].c if args and isinstance(args[0], Lin) and args[0].const else 0 if not args else None
            if i is None:
                raise AnalysisError("some range")
            s = st.copy()
            l = self.sub(s, i)
            s = s if i else self.assume_le(s, self.offset + self.length - self.size)
            return [] if s is None else [(s, Ptr(l, Lin(0)) if n == "begin" else Ref(l))]
        if n == "size" and b == "http::header::range":
            return [(s, Lin(k)) for s, k in self.case(st, V("ranges", w), (1, 2))]
        if n in ("to_string", "type", "subtype", "unit", "essence", "format") or n.startswith("operator std") or n.startswith("operator basic"):
            return [self.give(st, e["t"], w if n.startswith("operator") else V(n, w))]
        return None

    def tag_places(self, s, k):
        out = []
        for i in range(k):
            x = (("tags",), ("i", Lin(i)))
            self.lty[x] = "fitoria::http::header::entity_tag"
            out.append(x)
        return out

    def range_items(self, n, rl, st):
        w = self.held(Ref(rl), st)
        if isinstance(w, Tok) and w.k[:2] == ("v", "list"):
            k = self.known_case(st, V("tags", w))
            if k is not None:
                xs = self.tag_places(st, k)
                for i, x in enumerate(xs):
                    st.mem[x] = V("tag_at", w, i)
                return xs
        return Chain.range_items(self, n, rl, st)

    def some(self, n, st, args, e):
        a, c, f = args
        sts, out = [st], []
        stop = n != "all_of"
        for i in range(a.off.c, c.off.c):
            nxt = []
            for s in sts:
                for y, v in self.call_value(f, [Ref(a.loc + (("i", Lin(i)),))], s, e):
                    for z, r in self.decide(y, v) if not (v == TRUE or v == FALSE) else [(y, v)]:
                        if (r == TRUE) == stop:
                            out.append((z, FALSE if n != "any_of" else TRUE))
                        else:
                            nxt.append(z)
            sts = nxt
        return out + [(s, FALSE if n == "any_of" else TRUE) for s in sts]

    def visited_(self, st, args, e):
        f = args[0].loc if isinstance(args[0], Ref) else None
        k = st.mem.get(f)
        if not (isinstance(k, Tok) and k.k[:1] == ("over",)):
            raise AnalysisError("visited by something unknown")
        ts = targs(unq(self.argty(e, 1) or self.lty.get(args[1].loc, "")).replace("const ", "").rstrip("& "))
        out = []
        for s, i in self.case(st, V("alternative"), tuple(range(len(ts)))):
            t = sq(ts[i])
            fs = []
            for j in range(k.k[1]):
                c = s.mem[f + (("over", j),)]
                x = s.mem.get(c.loc + (("?fn",),)) or s.mem.get(c.loc)
                g = self.p.fns.get(getattr(x, "id", None))
                if g and sq(unq(g["params"][0]["t"])).replace("const ", "").rstrip("& ") == t:
                    fs.append(c)
            if len(fs) != 1:
                raise AnalysisError("an alternative of %s nobody takes" % t)
            s = s.copy()
            if t.endswith("subrange_t"):
                l = self.sub(s, 0)
                s = self.assume_le(s, self.offset + self.length - self.size)
                s = self.assume_le(s, Lin(1) - self.length)
            else:
                l = self.tmp(ts[i])
                s.mem[l] = V("alt", i)
            out += self.call_value(fs[0], [Ref(l)], s, e)
        return out


PATH = (("ext", "path"),)
REQUEST = (("ext", "request"),)


def opening(rep, prog, full):
    it = Files(prog, rep)
    f = [f for f in prog.fns.values() if f["qn"] == FILE + "::open" and f.get("body") is not None and len(f["params"]) == (3 if full else 2)]
    if len(f) != 1:
        raise AnalysisError("open(): %d functions" % len(f))
    f = f[0]
    rep.analysed(f)
    st, P = St(), {}
    it.lty[REQUEST], it.lty[PATH] = "fitoria::web::request", handlers.STR
    fill(it, prog.rec_by_type["fitoria::web::request"], REQUEST, st, P)
    st.mem[PATH] = V("path")
    x = (("ext", "executor"),)
    it.lty[x] = "boost::asio::any_io_executor"
    st.mem[x] = V("executor")
    begin(it)
    vs, ex = it.run(f, [Ref(x), Ref(PATH)] + ([Ref(REQUEST)] if full else []), st)
    n = 0
    H = P["headers"]
    inm, rg = (Lin(handlers.it_k(prog, "k_" + k)) for k in ("if_none_match", "range"))
    if ex:
        rep.violation("open:throws", f, None, "opening a file may throw")
    for s, v in vs:
        n += 1
        tr = it.trace(s)
        bad = [y for y in tr if y[0] == "io" and y[2] == "error"]
        asked = {y[1]: y[2] for y in tr if y[0] == "case"}
        k = it.vstate(v.loc, s) if isinstance(v, Ref) else None
        if k is None:
            raise AnalysisError("a result of unknown state")
        if bad or k == "none":
            if not (bad and k == "none"):
                rep.violation("open:error", f, None, "opening a file %s although %s" % (
                    ("succeeds", "it cannot be had") if bad else ("fails", "it is there")))
            continue
        w = it.held(Ref(v.loc + (("val",),)), s)
        if not (isinstance(w, Tok) and w.k[:2] == ("v", "static")):
            w = under(s, v.loc + (("val",),))
        if not (isinstance(w, Tok) and w.k[:2] == ("v", "static")):
            raise AnalysisError("a file of unknown contents: %s" % show(w))
        tell(rep, w.k[2] == V("file", V("path")), "open:file", f, "what is served is %s, not the file of the path" % show(w.k[2]), w.k[2])
        tag, state = w.k[7], w.k[5]
        t = V("mtime", V("path"))
        tell(rep, w.k[6] == V("date", t), "open:date", f, "the last modification of what is served is %s" % show(w.k[6]), w.k[6])
        ct = w.k[3]
        tell(rep, ct == V("type_of", V("path")) if asked.get(V("known_type", V("path"))) else isinstance(ct, Tok) and ct.k[:2] == ("v", "mime"),
             "open:type", f, "the media type of what is served is %s" % show(ct), ct)
        for what, z in (("size", it.size), ("last modification", t)):
            tell(rep, inside(tag, z), "open:tag:" + what, f, "the entity tag of what is served does not depend on its %s" % what, tag)
        wanted, why = ("full_range_only_t",), "there is nothing to look at"
        if full:
            wanted, why = expected_(asked, H, inm, rg, tag)
        if wanted is None:
            continue
        got = (state.k[2],) if state.k[2] != "subrange_t" else ("subrange_t",) + tuple(state.k[3:])
        if wanted == ("subrange_t",):
            wanted += (it.offset, it.length)
        tell(rep, got == wanted, "open:%s:%s" % (wanted[0], why), f, "a file is opened as %s where %s asks for %s" % (
            named(got), why, named(wanted)), state)
    flush(rep, it, "open")
    rep.obligation("ways to open a file compared", n)


def inside(t, z):
    return t == z or isinstance(t, Tok) and any(inside(x, z) for x in t.k)


def named(t):
    return t[0][:-2].replace("_", " ") + (" (%s)" % ", ".join(map(repr, t[1:])) if t[1:] else "")


def expected_(asked, H, inm, rg, tag):
    """what the headers ask for: (state, reason), None when it is not said"""
    h = V("has", H, inm)
    t = V("value", H, inm)
    if h not in asked:
        return ("never_t",), "If-None-Match, which was not looked at,"
    if asked[h]:
        if V("is_list", t) not in asked:
            raise AnalysisError("If-None-Match is not read")
        if not asked[V("is_list", t)]:
            return ("bad_request_t",), "an If-None-Match that is no list"
        l = V("list", t)
        k = asked.get(V("tags", l), 0)
        m = [asked.get(V("weakly_equal_to", *sorted((tag, V("tag_at", l, i)), key=repr))) for i in range(k)]
        if asked.get(V("any", l)) or any(m):
            return ("not_modified_t",), "an If-None-Match that matches"
        if None in m and any(y.k[1] == "same" and tag in y.k[2:] for y in asked):
            return ("never_t",), "an If-None-Match, which is to be compared weakly,"
        if asked.get(V("any", l)) is None or not k or set(m) == {None}:
            raise AnalysisError("If-None-Match is not looked through")
        if None in m:
            return ("never_t",), "an If-None-Match whose tags were not all looked at"
    h, t = V("has", H, rg), V("value", H, rg)
    if h not in asked:
        return ("never_t",), "Range, which was not looked at,"
    if not asked[h]:
        return ("full_range_t",), "no Range"
    if V("is_range", t) not in asked:
        raise AnalysisError("Range is not read")
    if not asked[V("is_range", t)]:
        return ("range_not_satisfiable_t",), "a Range that is none"
    u = asked.get(V("same", V("unit", V("range", t)), Str("bytes")))
    if u is None:
        return ("never_t",), "a Range whose unit was not looked at"
    return (("subrange_t",), "a Range") if u else (("range_not_satisfiable_t",), "a Range of another unit")


def answering(rep, prog):
    it = Files(prog, rep)
    f = [f for f in prog.fns.values() if f["n"] == "tag_invoke" and f.get("body") is not None and len(f["params"]) == 2 and
         unq(f["params"][1]["t"]).startswith(FILE)]
    if len(f) != 1:
        raise AnalysisError("to_response: %d functions" % len(f))
    f = f[0]
    rep.analysed(f)
    st = St()
    it.lty[ST] = FILE
    alts = None
    for x in prog.rec_by_type[FILE]["fields"]:
        l = ST + (("f", x["n"]),)
        t = sq(unq(x["t"]))
        it.lty[l] = unq(x["t"])
        if t.startswith("std::variant"):
            alts = [sq(a).split("::")[-1] for a in targs(unq(x["t"]))]
        st.mem[l] = V("thestate") if t.startswith("std::variant") else V("its", t.split("<")[0].split("::")[-1])
    begin(it)
    tgt = (("ext", "to"),)
    vs, ex = it.run(f, [Ref(tgt), Ref(ST)], st)
    if ex or alts is None:
        raise AnalysisError("a response to a file may throw")
    n = 0
    F = V("its", "basic_stream_file")
    want = {"full_range_only_t": (200, V("part_of", F)), "full_range_t": (200, V("part_of", F)), "range_not_satisfiable_t": (416, None),
            "subrange_t": (206, V("part_of", F, it.offset, it.length)), "bad_request_t": (400, None), "not_modified_t": (304, None)}
    seen = set()
    for s, v in vs:
        n += 1
        a = alts[it.known_alt(s)]
        seen.add(a)
        w = status_of(it, prog, s, v)
        if not isinstance(w, dict) or a not in want:
            raise AnalysisError("a response of unknown value: %s" % a)
        z, body = want[a]
        tell(rep, w["status"] == Lin(z), "status:" + a, f, "a file opened as %s gets the status %s, not %d" % (named((a,)), show(w["status"]), z))
        b = w["body"]
        g = None
        if isinstance(b, Tok) and b.k[:2] == ("v", "body"):
            g = b.k[3]
        if body is not None:
            tell(rep, g == body, "body:" + a, f, "a file opened as %s is answered with %s, not %s" % (named((a,)), show(g), show(body)), g)
            if g == body:
                tell(rep, b.k[2] in (V("chunked"),) or b.k[2] == V("sized", it.length) and a == "subrange_t", "size:" + a, f,
                     "a file opened as %s is said to have the size %s" % (named((a,)), show(b.k[2])), b.k[2])
        elif g is not None and "part_of" in repr(g):
            rep.violation("body:" + a, f, None, "a file opened as %s is answered with its contents" % named((a,)))
        if a == "subrange_t":
            c = [y for y in sets(w["headers"]) if y[0] == Lin(handlers.it_k(prog, "k_content_range"))]
            if not c:
                rep.violation("content-range", f, None, "a part of a file is answered without saying which")
            else:
                y = c[-1][1]
                if not (isinstance(y, Tok) and y.k[:2] == ("v", "fmt") and len(y.k) >= 5 and y.k[2] == Str("bytes {}-{}/{}")):
                    raise AnalysisError("a Content-Range of unknown form: %s" % show(y))
                tell(rep, y.k[3:5] == (it.offset, it.offset + it.length - 1), "content-range", f,
                     "a part of a file is said to be the bytes %s to %s" % (show(y.k[3]), show(y.k[4])))
        if z == 416:
            c = [y for y in sets(w["headers"]) if y[0] == Lin(handlers.it_k(prog, "k_content_range"))]
            ok = c and inside(c[-1][1], it.size)
            tell(rep, ok, "size-said", f, "a range that cannot be had is refused without saying the size of the file", c[-1][1] if c else None)
        if z in (200, 206, 304):
            for h, t in (("etag", "entity_tag"), ("last_modified", "date")) + ((("content_type", "mime_view"),) if z != 304 else ()):
                c = [y for y in sets(w["headers"]) if y[0] == Lin(handlers.it_k(prog, "k_" + h))]
                ok = c and "'%s'" % t in repr(c[-1][1])
                tell(rep, ok, "header:%s:%s" % (a, h), f, "a file opened as %s is answered without its own %s" % (named((a,)), h))
    if seen != set(want):
        raise AnalysisError("only %s" % sorted(seen))
    flush(rep, it, "to_response")
    rep.obligation("answers with files compared", n)


def sets(t):
    if isinstance(t, Tok) and t.k[:2] in (("v", "set"), ("v", "insert")) and len(t.k) == 5:
        return sets(t.k[2]) + [(t.k[3], t.k[4])]
    if isinstance(t, Tok) and t.k[:2] == ("v", "erase"):
        return [y for y in sets(t.k[2]) if y[0] != t.k[3]]
    if isinstance(t, Tok) and t.k[:2] == ("v", "noheaders"):
        return []
    raise AnalysisError("headers of unknown value: %s" % show(t))


PARTS = {"open": lambda rep, prog: opening(rep, prog, True), "open alone": lambda rep, prog: opening(rep, prog, False), "answer": answering}


def main(rep):
    prog = facts.load("files")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("things compared", sum(n for k_, n in rep.obl if "compared" in k_), 8)


if __name__ == "__main__":
    report.run("C23", "abstract interpretation of opening files for requests and answering with them, over every outcome of every question asked",
               "a file is served whole, in part or not at all exactly as the request's conditions ask", main)
