"""C21: handlers get what they ask for, or are not called."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import message  # noqa: E402
import report  # noqa: E402
from message import MOVED, REQ, RES, Msg, look, only, show, start  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from session import Sess, V, begin  # noqa: E402
from streams import SELF, Io  # noqa: E402
from strs import flush  # noqa: E402

FROM, TO = "fitoria::web::from_request_ns::from_request_t<", "fitoria::web::to_response_ns::to_response_t"
OF = tuple("fitoria::web::%s_of<" % x for x in ("path", "query", "form", "json", "state"))
RESP = "fitoria::web::response"
ASKED = ("drive::asked<",)


class Hand(Msg):
    """what a handler asks for, the handlers and what they answer are terms; the rest is the repository's own code"""
    throws = ()

    def is_resp(self, ty):
        return sq(unq(ty or "").replace("const ", "").rstrip("& ")) == "web::response"

    def own_class(self, ty):
        t = sq(unq(ty or "").replace("const ", "").rstrip("& "))
        return t.startswith("drive::") and not t.startswith("drive::pair_of")

    def await_(self, e, v, st):
        ty = unq(e.get("t", ""))
        if isinstance(v, Ref) and self.base(ty) in EXP + OPT and unq(self.lty.get(v.loc, "")) != ty and (
                self.is_term(v, st) or self.vstate(v.loc, st) is not None or st.mem.get(v.loc) == Tok("unexpected") or
                "nullopt" in self.lty.get(v.loc, "") or self.base(ty) not in self.lty.get(v.loc, "")):
            l = self.tmp(ty)
            return [(s, Ref(l)) for s in self.make(ty, l, [v], [self.lty.get(v.loc, "")], st, e)]
        return [(st, v)]

    def msg(self, n, q, rec, b, ctor, fn, st, this, args, e):
        if n == "tag_invoke" and this is None and args:
            a0 = unq(self.argty(e, 0) or (fn.get("params") or [{"t": ""}])[0]["t"]).replace("const ", "").rstrip("& ")
            if a0.startswith(FROM + "drive::asked<"):
                return self.extract(a0[len(FROM):-1], st, args, e)
            if a0 == TO:
                s = st.copy()
                w = self.term(args[1], s, e)
                return [self.give(s, RESP, V("answer", w))]
        if b.startswith("drive::") and n == "operator()" and not rec.startswith(ASKED):
            return self.called(b, st, args, e)
        if this is not None and (self.own_class(rec) or self.is_resp(rec)) and (ctor or n == "operator=" or n.startswith("~")):
            if n.startswith("~"):
                return [(st, VOID)] if self.own_class(rec) or self.is_term(Ref(this), st) else None
            if len(args) == 1 and isinstance(args[0], Ref) and args[0].loc not in st.mem and b in HANDLERS:
                return self.hold(st, this, V("made", b))
            if len(args) == 1 and isinstance(args[0], Ref) and (self.own_class(rec) or self.is_term(args[0], st)):
                return self.take(st, this, args[0], e, 0)
            if not args and self.own_class(rec):
                return self.hold(st, this, V("made", b))
        if n == "set_body" and b == "web::response_builder" and args and not self.is_term(args[0], st) and fn["id"] in self.p.fns:
            s, v = self.give(st, "std::basic_string_view<char, std::char_traits<char>>", V("text"))
            return self.call_body(self.p.fns[fn["id"]], this, [v], s, e, False)
        if n == "state" and self.part(rec) == "states":
            w = self.term(Ref(this), st, e)
            s, f = st.copy(), st.copy()
            ty = unq(e["t"])
            T = targs(ty)[0].rstrip("& ").replace("const ", "")
            t = V("state", w, T)
            self.log(s, "case", t, True)
            self.log(f, "case", t, False)
            l, m, d = self.tmp(ty), self.tmp(ty), (("state", T),)
            self.lty[d] = T
            s.mem[d] = t
            self.vset(l, s, "some")
            s.mem[l + (("val",),)] = Ref(d)
            self.vset(m, f, "none")
            return [(s, Ref(l)), (f, Ref(m))]
        p = self.part(rec)
        if p in ("path", "query", "headers") and this is not None and n in ("size", "at", "get", "find"):
            r = self.lookup(n, p, st, this, args, e)
            if r is not None:
                return r
        if b == "mime::mime_view" or q.startswith("mime::mime_view::"):
            if n == "parse":
                w = self.text_term(args[0], st, e)
                return self.maybe(st, V("parses", w), e["t"], V("mime_of", w))
            if this is not None and ctor and len(args) == 1 and self.is_term(args[0], st):
                return self.take(st, this, args[0], e, 0, False)
            if n == "essence":
                return [self.give(st, e["t"], V("essence", self.term(Ref(this), st, e)))]
        if n in ("operator==", "operator!=") and len(args) + (this is not None) == 2:
            a, c = ([Ref(this)] if this is not None else []) + list(args)
            if self.is_term(a, st) and self.is_term(c, st):
                a, c = sorted((self.term(a, st, e), self.term(c, st, e)), key=repr)
                r = self.ask(st, V("same", a, c))
                return r if n == "operator==" else [(x, FALSE if v == TRUE else TRUE) for x, v in r]
        if b == "from_string_ns::from_string_t" and n == "operator()":
            w = self.text_term(args[0], st, e)
            return self.maybe(st, V("readable", targs(unq(fn["rec"]))[0], w), e["t"], V("read", targs(unq(fn["rec"]))[0], w))
        if n in ("as_form", "as_json") and this is None:
            w = self.text_term(args[0], st, e)
            return self.maybe(st, V(n, w), e["t"], V(n + "_of", w))
        if q in ("fmt::format", "std::format"):
            return [self.give(st, e["t"], V("text"))]
        if q == "boost::pfr::get_name" and fn.get("targs"):
            return [self.give(st, e["t"], V("name", int(fn["targs"][0].rstrip("UL"))))]
        if q == "boost::pfr::get" and fn.get("targs") and isinstance(args[0], Ref):
            r = self.p.rec_by_type["drive::pair_of"]["fields"][int(fn["targs"][0].rstrip("UL"))]
            l = args[0].loc + (("f", r["n"]),)
            self.lty[l] = unq(r["t"])
            return [(st, Ref(l))]
        if n == "async_read_until_eof" and this is None:
            ty = self.a_type(e)
            w = self.term(args[0], st, e)
            s, f = st.copy(), st.copy()
            self.log(s, "read", w, "ok")
            self.log(f, "read", w, "error")
            return [(s, Ref(self.expected(s, ty, v=V("content", w)))), (f, Ref(self.expected(f, ty, err=("read",))))]
        if b == "std::source_location":
            return [self.give(st, e["t"], V("here"))]
        if q.startswith("log::") and this is None:
            return [(st, VOID)]
        if (b.startswith("log::") or "format_string" in b) and this is not None and ctor:
            return self.hold(st, this, V("text"))
        if n == "what" and this is not None:
            return [(st, V("text"))]
        if q == "std::visit" and len(args) == 2:
            ts = targs(unq(self.argty(e, 1) or self.lty.get(args[1].loc, "")).replace("const ", "").rstrip("& "))
            if self.held(args[1], st) != V("arg", "a0"):
                self.term(args[1], st, e)
                raise AnalysisError("a variant of unknown contents")
            out = []
            for s, i in self.case(st, V("alternative"), tuple(range(len(ts)))):
                a = self.tmp(ts[i])
                s.mem[a] = V("alt", i)
                out += self.call_value(args[0], [Ref(a)], s, e)
            return out
        if q == "std::apply" and len(args) == 2 and isinstance(args[1], Ref):
            k = st.mem.get(args[1].loc + (("get", "n"),))
            if k is None:
                raise AnalysisError("a tuple of unknown contents")
            return self.call_value(args[0], [Ref(args[1].loc + (("get", i),)) for i in range(k.c)], st, e)
        return Msg.msg(self, n, q, rec, b, ctor, fn, st, this, args, e)

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        if self.base(unq(ty)) in EXP + OPT:
            return Io.make(self, ty, loc, args, atys, st, e, rvalue)
        t = unq(ty)
        if len(args) == 1 and isinstance(args[0], Ref) and t.startswith(OF) and unq(atys[0] or self.lty.get(args[0].loc, "")).replace(
                "const ", "").rstrip("& ") == t:
            s = st.copy()
            self.lty[loc] = t
            for k, w in st.mem.items():
                if k[:len(args[0].loc)] == args[0].loc:
                    s.mem[loc + k[len(args[0].loc):]] = w
            return [s]
        return Msg.make(self, ty, loc, args, atys, st, e, rvalue)

    def text_term(self, v, st, e):
        w = self.held(v, st)
        if isinstance(w, Tok) and w.k[:1] == ("v",) or w == MOVED:
            return self.term(v, st, e)
        raise AnalysisError("a text of unknown value")

    def maybe(self, st, asked, ty, term):
        """an optional or expected: there or not"""
        ty = unq(ty)
        out = []
        for s, y in self.case(st, asked, (True, False)):
            l = self.tmp(ty)
            self.vset(l, s, "some" if y else "none")
            x = l + (("val",),)
            if y:
                T = targs(ty)[0]
                self.lty[x] = T.rstrip("& ")
                if T.endswith("&"):
                    d = self.tmp(T.rstrip("& ").replace("const ", ""))
                    s.mem[d] = term
                    s.mem[x] = Ref(d)
                else:
                    s.mem[x] = term
            elif self.base(ty) in EXP:
                s.mem[l + (("err",),)] = Tok("ec", ("of", repr(asked)))
                self.lty[l + (("err",),)] = targs(ty)[1]
            out.append((s, Ref(l)))
        return out

    def counted(self, st, w):
        return self.case(st, V("count", w), tuple(range(4)))

    def lookup(self, n, p, st, this, args, e):
        w = self.term(Ref(this), st, e)
        if n == "size":
            return [(s, Lin(k)) for s, k in self.counted(st, w)]
        if n == "find" or len(args) != 1:
            return None
        i = self.number_of(args[0], st) if p == "path" else None
        if i is not None:
            out = []
            for s, k in self.counted(st, w):
                if i < k:
                    out += [self.give(s, targs(unq(e["t"]))[0] if n == "get" else e["t"], V("at", w, i))] if n == "at" else self.maybe(
                        self.log_case(s, V("has", w, i), True), V("has", w, i), e["t"], V("at", w, i))
                elif n == "at":
                    self.log(s, "beyond", i, k)
                    self.throw(s, Exc("std::out_of_range", e))
                else:
                    out += self.maybe(self.log_case(s, V("has", w, i), False), V("has", w, i), e["t"], None)
            return out
        k = self.term(args[0], st, e)
        if n == "get":
            return self.maybe(st, V("has", w, k), e["t"], V("value", w, k))
        out = []
        for s, y in self.case(st, V("has", w, k), (True, False)):
            if y:
                out.append(self.give(s, e["t"], V("value", w, k)))
            else:
                self.throw(s, Exc("std::out_of_range", e))
        return out

    def log_case(self, st, key, v):
        s = st.copy()
        self.log(s, "case", key, v)
        return s

    def known_alt(self, st):
        r = self.known_case(st, V("alternative"))
        if r is None:
            raise AnalysisError("an alternative nobody asked for")
        return r

    def known_case(self, st, key):
        for x in self.trace(st):
            if x[0] == "case" and x[1] == key:
                return x[2]
        return None

    def number_of(self, v, st):
        w = self.held(v, st)
        return w.c if isinstance(w, Lin) and w.const else None

    def extract(self, what, st, args, e):
        if not (isinstance(args[1], Ref) and args[1].loc == RQ):
            self.complain(e, "takes something from another request")
        ty = self.a_type(e)
        s, f = st.copy(), st.copy()
        self.log(s, "extract", what, "ok")
        l = self.expected(s, ty, v=V("got", what))
        self.log(f, "extract", what, "error")
        m = self.expected(f, ty, err="x")
        f.mem[m + (("err",),)] = V("refused", what)
        self.lty[m + (("err",),)] = RESP
        return [(s, Ref(l)), (f, Ref(m))]

    def called(self, b, st, args, e):
        s = st.copy()
        ts = []
        for i, a in enumerate(args):
            if isinstance(a, Ref) and a.loc == RQ:
                ts.append(V("request"))
            else:
                ts.append(self.term(a, s, e))
                if self.rvalue(e, i) and isinstance(a, Ref):
                    s.mem[a.loc] = MOVED
        self.log(s, "call", b, tuple(ts))
        out = []
        if b == "drive::next":
            for x in THROWN:
                f = s.copy()
                self.log(f, "threw", x)
                self.throw(f, Exc(x, e))
        ty = self.a_type(e)
        return out + [self.give(s, ty, V("reply"))]


RQ = (("ext", "request"),)
HANDLERS = ("drive::none", "drive::one", "drive::three", "drive::next")
THROWN = ("std::runtime_error", "int")


def made(it, prog, n, st):
    f = only([f for f in prog.fns.values() if f["qn"] == "drive::" + n], n)
    begin(it)
    vs, ex = it.run(f, [], st)
    if ex or len(vs) != 1 or not isinstance(vs[0][1], Ref):
        raise AnalysisError("%s: a middleware of unknown value" % n)
    s, v = vs[0]
    return s, v.loc, unq(f["ret"])


def runs(it, prog, n):
    """[(function, state, outcome, exception)]"""
    s, l, ty = made(it, prog, n, St())
    f = only([f for f in prog.fns.values() if f.get("n") == "operator()" and f.get("rec") and unq(f["rec"]) == ty and f.get("body") is not None
              and len(f["params"]) == 1], n)
    it.lty[RQ] = "fitoria::web::request"
    begin(it)
    vs, ex = it.run(f, [Ref(RQ)], s, l)
    return f, [(x, v, None) for x, v in vs] + [(x, None, y) for x, y in ex]


def calling(rep, prog):
    n = 0
    for name, k in (("none", 0), ("one", 1), ("three", 3)):
        it = Hand(prog, rep)
        f, out = runs(it, prog, "make_" + name)
        rep.analysed(f)
        for s, v, x in out:
            n += 1
            tr = [y for y in it.trace(s) if y[0] in ("extract", "call")]
            if x is not None:
                rep.violation("throws:" + name, f, None, "a handler of %d arguments: an exception leaves although nothing threw" % k)
                continue
            w = it.held(v, s)
            want, end = [], None
            for i in range(k):
                a = "drive::asked<%d>" % (i + 1)
                ok = not any(y[:2] == ("extract", a) and y[2] == "error" for y in tr)
                want.append(("extract", a, "ok" if ok else "error"))
                if not ok:
                    end = V("refused", a)
                    break
            if end is None:
                want.append(("call", "drive::" + name, tuple(V("got", "drive::asked<%d>" % (i + 1)) for i in range(k))))
                end = V("answer", V("reply"))
            tell(rep, tr == want, "calls:" + name, f, "a handler of %d arguments: %s happens, not %s" % (k, steps(tr), steps(want)), tr)
            tell(rep, w == end, "answer:" + name, f, "a handler of %d arguments, after %s: the response is %s, not %s" % (
                k, steps(tr), show(w), show(end)), w)
        flush(rep, it, "handler_middleware")
    rep.obligation("ways to call a handler compared", n)


def steps(tr):
    return ", ".join("%s %s" % (x[1], x[2]) if x[0] == "extract" else "%s(%s)" % (x[1], ", ".join(show(t) for t in x[2])) for x in tr) or "nothing"


def tell(rep, ok, key, f, text, w=None):
    if ok:
        return
    if isinstance(w, Tok) and not (w == MOVED or w.k[:1] == ("v",)):
        raise AnalysisError("%s: %r" % (text, w))
    rep.violation(key, f, None, text)


def status_of(it, prog, s, v):
    """the status of a response the repository built itself, or the term of one it was given"""
    w = it.held(v, s)
    if isinstance(w, Tok) and (w == MOVED or w.k[:1] == ("v",)):
        return w
    if not it.is_resp(it.lty.get(v.loc)):
        raise AnalysisError("a response of unknown value")
    return look(it, prog, "response", s, v.loc, RES)


def guarded(rep, prog):
    it = Hand(prog, rep)
    f, out = runs(it, prog, "make_guard")
    rep.analysed(f)
    n = 0
    for s, v, x in out:
        n += 1
        tr = [y for y in it.trace(s) if y[0] in ("call", "threw")]
        th = [y[1] for y in tr if y[0] == "threw"]
        how = "when an exception (%s) is thrown" % th[0] if th else "when nothing is thrown"
        calls = [y for y in tr if y[0] == "call"]
        tell(rep, calls == [("call", "drive::next", (V("request"),))], "guard:calls", f, "the exception handler calls %s, not the next one with the request" % (
            steps(calls)))
        if x is not None:
            rep.violation("guard:throws:%s" % (th or ["-"])[0], f, None, "%s, it is passed on rather than answered" % how)
            continue
        w = status_of(it, prog, s, v)
        if not th:
            tell(rep, w == V("reply"), "guard:answer", f, "the exception handler: %s, the response is not the one of the next" % how)
        else:
            ok = isinstance(w, dict) and w["status"] == Lin(it_k(prog, "k_error"))
            tell(rep, ok, "guard:status", f, "the exception handler: %s, the response is %s, not an internal server error" % (
                how, show(w["status"]) if isinstance(w, dict) else show(w)), w["status"] if isinstance(w, dict) else w)
    flush(rep, it, "exception_handler")
    rep.obligation("ways an exception handler goes compared", n)


def it_k(prog, n):
    return message.k(prog, n)


def outcomes(it, f, vs):
    """what a coroutine gives, as the type it says"""
    T = targs(unq(f["ret"]))[0]
    out = []
    for s, v in vs:
        if isinstance(v, Ref) and unq(it.lty.get(v.loc, "")) == T and it.vstate(v.loc, s) is not None:
            out.append((s, v))
            continue
        if v == VOID:
            it.rep.violation("ends:" + f["params"][0]["t"], f, None, "%s ends without giving anything" % f.get("sqn", f["n"]))
            continue
        if not isinstance(v, Ref):
            raise AnalysisError("a result of unknown value")
        l = it.tmp(T)
        if "unexpected" not in it.lty.get(v.loc, "") and targs(T)[0].endswith("&"):
            it.vset(l, s, "some")
            s.mem[l + (("val",),)] = v
            out.append((s, Ref(l)))
            continue
        if "awaitable" in it.lty.get(v.loc, "") and "unexpected" not in repr(s.mem.get(v.loc)) and it.vstate(v.loc, s) is None:
            it.vset(l, s, "some")
            it.lty[l + (("val",),)] = targs(T)[0]
            it.copy_obj(v.loc, l + (("val",),), s)
            out.append((s, Ref(l)))
            continue
        out += [(x, Ref(l)) for x in it.make(T, l, [v], [it.lty.get(v.loc, "")], s, {"t": T, "l": f["l"], "args": []})]
    return out


def outcome(it, prog, s, v):
    """("ok", term or place) or ("error", what the response is)"""
    if not isinstance(v, Ref):
        raise AnalysisError("a result of unknown value")
    k = it.vstate(v.loc, s)
    if k == "some":
        x = v.loc + (("val",),)
        w = s.mem.get(x)
        return "ok", w if isinstance(w, Ref) else it.held(Ref(x), s), x
    if k == "none":
        x = v.loc + (("err",),)
        return "error", status_of(it, prog, s, Ref(x)), x
    raise AnalysisError("a result of unknown state")


def from_req(prog, what):
    fs = [f for f in prog.fns.values() if f.get("n") == "tag_invoke" and f.get("body") is not None and f["params"] and
          unq(f["params"][0]["t"]).replace("const ", "", 0) == FROM + what + ">"]
    return only(fs, "from_request<%s>" % what)


STR = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>"
BYTES = "std::vector<std::byte, std::allocator<std::byte>>"
WEB = "fitoria::web::"
BUILTIN = {WEB + "request &": None, "const " + WEB + "request &": None, "const " + WEB + "connect_info &": "connection",
           "const " + WEB + "path_info &": "path", "const " + WEB + "query_map &": "query", "const fitoria::http::header_map &": "headers",
           "fitoria::http::version": "version"}


def takes(rep, prog, what):
    it = Hand(prog, rep)
    f = from_req(prog, what)
    st, P = start(it, prog, "request", REQ)
    begin(it)
    vs, ex = it.run(f, [V("tag"), Ref(SELF)], st)
    rep.analysed(f)
    return it, f, P, outcomes(it, f, vs), ex


def short(what):
    return what.replace("fitoria::", "").replace("web::", "").replace(STR, "std::string").replace(BYTES, "bytes")


def builtin(rep, prog):
    n = 0
    for what, part in BUILTIN.items():
        it, f, P, vs, ex = takes(rep, prog, what)
        for s, v in vs:
            n += 1
            k, w, x = outcome(it, prog, s, v)
            if k != "ok":
                rep.violation("own:" + what, f, None, "asking for %s may fail" % short(what))
                continue
            if part is None:
                w = it.held(Ref(x), s) if not isinstance(w, Ref) else w
                ok = isinstance(w, Ref) and w.loc == SELF
                tell(rep, ok, "own:" + what, f, "asking for %s does not give the request itself" % short(what), w if not isinstance(w, Ref) else None)
                continue
            byref = isinstance(w, Ref)
            t = it.held(w, s) if byref else w
            tell(rep, t == P[part], "own:" + what, f, "asking for %s gives %s, not the request's %s" % (short(what), show(t), part), t)
        for _ in ex:
            rep.violation("own:" + what, f, None, "asking for %s may throw" % short(what))
        flush(rep, it, "from_request")
    rep.obligation("parts of a request taken", n)


def bodies(rep, prog):
    n = 0
    for what in (STR, BYTES):
        it, f, P, vs, ex = takes(rep, prog, what)
        for s, v in vs:
            n += 1
            k, w, x = outcome(it, prog, s, v)
            tr = [y for y in it.trace(s) if y[0] == "read"]
            tell(rep, len(tr) == 1 and plain_body(tr[0][1]) == "body", "reads:" + what, f, "asking for %s reads the body %d times, not once" % (short(what), len(tr)))
            if not tr:
                continue
            if tr[-1][2] == "ok":
                tell(rep, k == "ok" and w == V("content", tr[0][1]), "content:" + what, f, "asking for %s, when the body was read: %s" % (
                    short(what), "it is not given" if k == "ok" else "it fails"), w if k == "ok" else None)
            else:
                refused(rep, prog, it, f, "unread:" + what, "asking for %s, when the body cannot be read" % short(what), k, w)
        flush(rep, it, "from_request")
    rep.obligation("body readers compared", n)


def plain_body(t):
    return t.k[-1] if isinstance(t, Tok) and t.k[:2] in (("v", "part"),) else None


def refused(rep, prog, it, f, key, what, k, w, codes=("k_bad_request",)):
    """an error response: of one of the given statuses, never a success"""
    if k == "ok":
        rep.violation(key, f, None, "%s: it succeeds" % what)
        return
    if not isinstance(w, dict):
        tell(rep, False, key, f, "%s: the response is %s" % (what, show(w)), w)
        return
    z = w["status"]
    if not (isinstance(z, Lin) and z.const):
        raise AnalysisError("a status of unknown value: %r" % (z,))
    if not 400 <= z.c < 600:
        rep.violation(key, f, None, "%s: the response has the status %d" % (what, z.c))


def states(rep, prog):
    what = WEB + "state_of<drive::state>"
    it, f, P, vs, ex = takes(rep, prog, what)
    n = 0
    t = V("state", P["states"], "drive::state")
    for s, v in vs:
        n += 1
        k, w, x = outcome(it, prog, s, v)
        asked = [y for y in it.trace(s) if y[0] == "case" and y[1] == t]
        if k == "ok":
            tell(rep, asked and asked[-1][2], "state:none", f, "asking for a state that is not there succeeds")
            w = under(s, x)
            tell(rep, w == t, "state:value", f, "asking for a state gives %s" % show(w), w)
        elif asked and asked[-1][2]:
            rep.violation("state:some", f, None, "asking for a state that is there fails")
        else:
            tell(rep, asked, "state:unasked", f, "asking for a state fails without looking for it")
            refused(rep, prog, it, f, "state:missing", "asking for a state that is not there", k, w)
        if s.mem.get((("state", "drive::state"),)) == MOVED:
            rep.violation("state:moved", f, None, "asking for a state moves it away from where it is kept")
    for _ in ex:
        rep.violation("state:throws", f, None, "asking for a state may throw")
    flush(rep, it, "state_of")
    rep.obligation("ways to ask for a state compared", n)


def under(s, x):
    if isinstance(s.mem.get(x), Ref):
        return under(s, s.mem[x].loc)
    ts = {w for k, w in s.mem.items() if k[:len(x)] == x and isinstance(w, Tok) and w.k[:1] in (("v",), ("moved",))}
    if not ts and not any(k[:len(x)] == x and not (isinstance(w, Lin) and w.const or isinstance(w, Str) and not w.s) for k, w in s.mem.items()):
        return V("nothing")
    if len(ts) != 1:
        raise AnalysisError("a value of unknown contents: %r" % ({k: w for k, w in s.mem.items() if k[:len(x)] == x},))
    return ts.pop()


FIELDS = ((STR, "first"), ("int", "second"))


def typed(it, prog, what, P):
    """(things that must all be so, [(where it is put, value)])"""
    kind = what[len(WEB):].split("<")[0]
    inner = targs(what)[0]
    ct = Lin(it_k(prog, "k_content_type"))
    need, val = [], []
    if kind in ("form_of", "json_of"):
        t = V("value", P["headers"], ct)
        m = V("mime", "application_www_form_urlencoded" if kind == "form_of" else "application_json")
        c = V("content", P["body"])
        need = [V("has", P["headers"], ct), V("parses", t), V("same", *sorted((V("essence", V("mime_of", t)), m), key=repr)),
                V("as_form" if kind == "form_of" else "as_json", c)]
        if kind == "json_of":
            return need, [(None, V("as_json_of", c))]
        src = V("as_form_of", c)
    else:
        src = P[{"path_of": "path", "query_of": "query"}[kind]]
    if inner.startswith("std::tuple<"):
        ts = [(t, V("at", src, i), (("get", i),)) for i, t in enumerate(targs(inner))]
    else:
        ts = [(t, V("value", src, V("name", i)), (("f", n),)) for i, (t, n) in enumerate(FIELDS)]
    need.append((V("count", src), len(ts)))
    for i, (t, w, l) in enumerate(ts):
        if w.k[1] == "value":
            need.append(V("has", src, V("name", i)))
        need.append(V("readable", t, w))
        val.append((l, V("read", t, w)))
    return need, val


def fields(rep, prog, what):
    it, f, P, vs, ex = takes(rep, prog, what)
    need, val = typed(it, prog, what, P)
    need = dict(x if isinstance(x, tuple) else (x, True) for x in need)
    n, name = 0, short(what)
    for s, v in vs:
        n += 1
        k, w, x = outcome(it, prog, s, v)
        asked = {y[1]: y[2] for y in it.trace(s) if y[0] == "case"}
        reads = [y for y in it.trace(s) if y[0] == "read"]
        for y in [y for y in asked if y.k[1] == "same" and asked[y]]:
            if need and V("parses", P_ct(P, prog)) in need and set(y.k[2:]) == {P_ct(P, prog), mime_of(need)}:
                asked.update({q: True for q in need if q.k[1] in ("parses", "same")})       # the text is the type itself
        other = [y for y in asked if y not in need and y.k[1] not in QUESTIONS]
        wrong = [y for y in need if y in asked and asked[y] != need[y]] + [y for y in reads if y[2] == "error"]
        if k == "ok":
            tell(rep, not wrong, "takes:%s:%s" % (name, wrong and said(wrong[0])), f, "asking for %s succeeds although it is not so that %s" % (
                name, wrong and said(wrong[0])))
            left = [y for y in need if y not in asked]
            if left and not wrong:
                if other:
                    raise AnalysisError("something else is asked: %s" % said(other[0]))
                rep.violation("unasked:%s:%s" % (name, said(left[0])), f, None, "asking for %s succeeds without knowing that %s" % (name, said(left[0])))
            for l, t in val:
                if wrong or left:
                    break
                g = under(s, x + (l or ()))
                tell(rep, g == t, "field:%s:%s" % (name, l), f, "asking for %s: a field is %s, not %s" % (name, show(g), show(t)), g)
            continue
        if not wrong:
            if other:
                raise AnalysisError("something else is asked: %s" % said(other[0]))
            rep.violation("refuses:%s" % name, f, None, "asking for %s fails although %s" % (
                name, "; ".join(said(y) for y in asked if y in need) or "nothing is wrong"))
            continue
        refused(rep, prog, it, f, "status:%s" % name, "asking for %s, when it is not so that %s" % (name, said(wrong[0])), k, w)
    for s, e in ex:
        if e.ty == "std::out_of_range":
            rep.violation("throws:%s" % name, f, None, "asking for %s may throw: a value is looked up that is not there" % name)
        else:
            raise AnalysisError("an unknown exception")
    flush(rep, it, name.split("<")[0])
    rep.obligation("ways to ask for %s compared" % name, n)


def P_ct(P, prog):
    return V("value", P["headers"], Lin(it_k(prog, "k_content_type")))


def mime_of(need):
    return [x for y in need if y.k[1] == "same" for x in y.k[2:] if x.k[1] == "mime"][0]


QUESTIONS = ("same", "has", "parses", "count", "readable", "as_form", "as_json")


def said(y):
    if isinstance(y, tuple):
        return "the body can be read"
    o = y.k[1]
    return {"has": "there is " + show(y.k[-1]), "parses": "the content type is one", "same": "the content type is the right one",
            "as_form": "the body is a form", "as_json": "the body is JSON", "count": "there are as many values as fields",
            "readable": "%s can be read" % show(y.k[-1])}.get(o, show(y))


def answers(rep, prog):
    """what a handler's answer becomes"""
    fs = [f for f in prog.fns.values() if f.get("n") == "operator()" and f.get("body") is not None and unq(f.get("rec") or "") == TO and len(f["params"]) == 1]
    n, seen = 0, set()
    ct = Lin(it_k(prog, "k_content_type"))
    for f in fs:
        t = unq(f["params"][0]["t"]).replace("const ", "").rstrip("& ")
        b = sq(t).split("<")[0]
        it = Hand(prog, rep)
        st = St()
        A = V("arg", "a0")
        l = (("ext", "arg:a0"),)
        it.lty[l] = t
        sts = [(st, A)]
        if b == "expected":
            it.vset(l, st, "some")
            st.mem[l + (("val",),)] = A
            it.lty[l + (("val",),)] = targs(t)[0]
            st2 = St()
            it.vset(l, st2, "none")
            B = V("arg", "error")
            st2.mem[l + (("err",),)] = B
            it.lty[l + (("err",),)] = targs(t)[1]
            sts = [(st, A), (st2, B)]
        else:
            st.mem[l] = A
        for st, T in sts:
            begin(it)
            o = (("ext", "to_response"),)
            it.lty[o] = TO
            vs, ex = it.run(f, [Ref(l)], st, o)
            if ex:
                rep.violation("answer:throws:" + b, f, None, "turning %s into a response may throw" % b)
            for s, v in vs:
                n += 1
                w = status_of(it, prog, s, v)
                if b in ("std::basic_string", "std::vector"):
                    if not isinstance(w, dict):
                        tell(rep, False, "answer:" + b, f, "%s becomes %s" % (b, show(w)), w)
                        continue
                    m = "text_plain" if b == "std::basic_string" else "application_octet_stream"
                    want = {"status": Lin(it_k(prog, "k_ok")), "headers": V("set", V("noheaders"), ct, V("mime", m)),
                            "body": V("body", V("sized", V("size", A)), V("vs", A))}
                    fx = {y[1]: y[2] for y in it.trace(s) if y[0] == "case"}
                    got = {p: message.plain(w[p], fx) for p in want}
                    want = {p: message.plain(want[p], fx) for p in want}
                    for p in want:
                        tell(rep, got[p] == want[p], "answer:%s:%s" % (b, p), f, "%s becomes a response whose %s is %s, not %s" % (
                            short(t), p, show(got[p]), show(want[p])), got[p])
                    continue
                if b == "web::response":
                    want = T
                elif b == "std::variant":
                    i = it.known_alt(s)
                    want = V("answer", V("alt", i))
                else:
                    want = V("answer", T)
                tell(rep, w == want, "answer:" + b, f, "%s becomes %s, not %s" % (short(t), show(w) if not isinstance(w, dict) else "a response of its own",
                                                                               show(want)), w if not isinstance(w, dict) else None)
        seen.add(b)
        rep.analysed(f)
        flush(rep, it, "to_response")
    if not {"response", "std::basic_string", "std::vector", "std::variant", "expected"} <= {x.replace("web::", "") for x in seen}:
        rep.undecided("answers", "only %s" % sorted(seen))
    rep.obligation("answers compared", n)


PARTS = {"handlers": calling, "exceptions": guarded, "parts": builtin, "bodies": bodies, "states": states, "answers": answers}
for w_ in ("path_of<std::tuple<int>>", "path_of<std::tuple<%s, int>>" % STR, "path_of<drive::pair_of>", "query_of<drive::pair_of>",
           "form_of<drive::pair_of>", "json_of<drive::object>"):
    PARTS["asking for " + short(w_)] = (lambda w: lambda rep, prog: fields(rep, prog, WEB + w))(w_)


def main(rep):
    prog = facts.load("handlers")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("things compared", sum(n for k_, n in rep.obl if "compared" in k_), 20)


if __name__ == "__main__":
    report.run("C21", "abstract interpretation of what calls handlers, takes things from requests and answers for them, on unknown requests and "
               "handlers, over every outcome of every question asked",
               "a handler is called once with everything it asks for, or what cannot be had is refused", main)
