"""C19: what a session of the server does with a connection, request by request."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from absint import Out  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from streams import GH, SELF, Io, construct  # noqa: E402
from strs import flush  # noqa: E402

STREAMS = {"tcp": "shared_basic_stream<boost::asio::ip::tcp>", "local": "shared_basic_stream<boost::asio::local::stream_protocol>",
           "tls": "shared_ssl_stream<boost::asio::ip::tcp>", "tls-local": "shared_ssl_stream<boost::asio::local::stream_protocol>"}
STREAM, ROUTE, ROUTER = (("ext", "stream"),), (("ext", "route"),), (("ext", "router"),)
KNOWN = {"path", "encoded_path", "target", "params", "encoded_params", "method", "version", "socket", "pattern", "match", "matcher",
         "query", "fragment", "encoded_target", "states", "prepend", "msg", "from_version", "from_fields", "from_query", "path_info",
         "connect", "url", "get", "lit"}
KINDS = ("null", "sized", "chunked")
PTRS = ("std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access")
STATUS = {"101": 101, "102": 102, "204": 204, "other": 200}


def V(*k):
    return Tok("v", *k)


def ops(t):
    """the operations a term is made of"""
    if isinstance(t, Tok) and t.k[:1] == ("v",):
        yield t.k[1]
        for x in t.k[2:]:
            yield from ops(x)
    elif isinstance(t, tuple):
        for x in t:
            yield from ops(x)


class Sess(Io):
    """the libraries underneath by their contracts; everything else they give is an uninterpreted term"""
    most = 8
    way = "&"         # which of the builder's functions are used
    most_reads = 2
    own_response = True     # what answers a request is looked at on its own

    def __init__(self, prog, rep=None):
        Io.__init__(self, prog, rep)
        self.k = {}
        for f in prog.fns.values():
            if f.get("n", "").startswith("k_") and f.get("body") is not None:
                it = Io(prog)
                it.run_setup()
                v = it.run(f, [], St())[0][0][1]
                if isinstance(v, Lin) and v.const:
                    self.k[f["n"][2:]] = v.c

    def loop(self, n, sts, cond, body, inc, post=False):
        """followed round by round: the number of requests bounds it"""
        out = Out()
        work = [(s, 0, post) for s in sts]
        while work:
            s, i, skip = work.pop()
            if i > self.most:
                raise AnalysisError("a loop that does not end")
            t, f = ([s], []) if skip else cond(s)
            out.n += f
            for x in t:
                o = self.ex(body, x)
                out.n += o.b
                for y in o.n + o.c:
                    work += [(z, i + 1, False) for z, _ in self.ev(inc, y)] if inc is not None else [(y, i + 1, False)]
        return out

    # ------------------------------------------------------------ terms
    def held(self, v, st):
        if isinstance(v, Ref):
            if v.loc in st.mem:
                w = st.mem[v.loc]
                if isinstance(w, (Tok, Lin, Ptr, Str)):
                    return w if not isinstance(w, Ptr) else self.held(w, st)
                if isinstance(w, Ref):
                    return self.held(w, st)
            return Tok("at", v.loc)
        if isinstance(v, Ptr):
            return Tok("at", v.loc)
        return v

    def give(self, st, ty, term):
        """a value of a type, known by a term"""
        t = unq(ty)
        l = self.tmp(t.rstrip("& "))
        s = st.copy()
        s.mem[l] = term
        return (s, Ref(l))

    def case(self, st, key, options):
        for x in self.trace(st):
            if x[0] == "case" and x[1] == key:
                return [(st, x[2])]
        out = []
        for o in options:
            s = st.copy()
            self.log(s, "case", key, o)
            out.append((s, o))
        return out

    def ask(self, st, term):
        return [(s, TRUE if v else FALSE) for s, v in self.case(st, term, (True, False))]

    def known(self, st, term):
        for x in self.trace(st):
            if x[0] == "case" and x[1] == term:
                return x[2]
        return None

    def lit(self, v, st):
        w = self.held(v, st)
        if isinstance(w, Str):
            return w.s
        try:
            w = self.as_text(v, st)
        except AnalysisError:
            return None
        return w.s if isinstance(w, Str) else None

    def result(self, st, e, tag, *ev):
        """an operation that may succeed or fail"""
        s, f = st.copy(), st.copy()
        ty = self.a_type(e)
        self.log(s, *(ev + ("ok",)))
        k = ("io", tag, sum(x[0] == ev[0] for x in self.trace(st)))
        self.log(f, *(ev + (k,)))
        T = (targs(ty) + ["void"])[0]
        return [(s, Ref(self.expected(s, ty, v=None if T == "void" else sym(self.fresh("n", "unsigned long"))))),
                (f, Ref(self.expected(f, ty, err=k)))]

    # ------------------------------------------------------------ conversions at the end of a coroutine
    def await_(self, e, v, st):
        ty = unq(e.get("t", ""))
        if isinstance(v, Ref) and self.base(ty) in EXP and (unq(self.lty.get(v.loc, "")) != ty or st.mem.get(v.loc) == Tok("unexpected")):
            if st.mem.get(v.loc) == Tok("unexpected") or self.vstate(v.loc, st) is not None:
                l = self.tmp(ty)
                return [(s, Ref(l)) for s in self.make(ty, l, [v], [self.lty.get(v.loc, "")], st, e)]
        return [(st, v)]

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        if unq(ty).startswith("std::chrono::duration<") and len(args) == 1:
            src = unq(atys[0]).replace("const ", "").rstrip("& ") if atys and atys[0] else ""
            s = st.copy()
            self.lty[loc] = unq(ty)
            s.mem[loc] = self.scaled(self.number(args[0], s), src, unq(ty))
            return [s]
        if unq(ty).startswith("std::function<") and len(args) == 1:
            w = self.held(args[0], st)
            s = st.copy()
            self.lty[loc] = unq(ty)
            s.mem[loc] = w if isinstance(w, Tok) and w.k[0] == "fn" else Tok("fn", w)
            return [s]
        if len(args) == 1 and isinstance(args[0], Ref) and not unq(ty).endswith("&"):
            w = st.mem.get(args[0].loc)
            if isinstance(w, Tok) and w.k[:1] in (("v",), ("res",), ("ws",), ("req",), ("stream",)):
                s = st.copy()
                self.lty[loc] = unq(ty)
                s.mem[loc] = w
                return [s]
        return Io.make(self, ty, loc, args, atys, st, e, rvalue)

    # ------------------------------------------------------------ calls
    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n") or "", sq(fn.get("qn", "")), sq(unq(fn.get("rec") or ""))
        ctor = fn.get("dk") == "CXXConstructor"
        ea = e.get("args", [])
        if e.get("k") == "CXXOperatorCallExpr" and this is not None:
            ea = ea[1:]
        real = [a for i, a in enumerate(args) if i >= len(ea) or not ea[i] or ea[i].get("k") != "CXXDefaultArgExpr"]
        r = self.sess(n, q, rec, rec.split("<")[0], ctor, fn, st, this, real, e)
        if r is not None:
            return r
        return Io.hook_call(self, fn, st, this, args, e)

    def hold(self, st, this, term, ty=None):
        s = st.copy()
        s.mem[this] = term
        return [(s, Ref(this))]

    def sess(self, n, q, rec, b, ctor, fn, st, this, args, e):
        H = lambda i: self.held(args[i], st)  # noqa: E731
        if n == "operator=" and this is not None and this[-1] == ("outbody",) and isinstance(H(0), Tok) and H(0).k[:2] == ("v", "whole"):
            return self.hold(st, this, H(0))
        if b in PTRS and this is not None:
            return self.shared(n, ctor, st, this, args, e)
        if n == "make_shared" and this is None:
            s = st.copy()
            k = sum(x[0] == "made" for x in self.trace(s))
            T = targs(unq(e.get("t", "")))[0]
            self.log(s, "made", k, T)
            l = (("obj", k),)
            self.lty[l] = T
            return [(s, Ptr(l))]
        if n == "get_lowest_layer":
            return [(st, Ref(STREAM))] if isinstance(args[0], Ref) and args[0].loc == STREAM else None
        if this == STREAM or b.startswith("shared_") and b.endswith("_stream"):
            return self.stream(n, ctor, st, this, args, e)
        own = sq(rec)
        if own == "web::websocket" and this is not None:
            if ctor:
                return self.hold(st, this, H(0) if H(0).k[:1] == ("ws",) else Tok("ws", H(0)))
            if n.startswith("~"):
                return [(st, VOID)]
            if n == "operator=":
                return self.hold(st, this, H(0))
            if n == "set_response":
                s = st.copy()
                self.log(s, "ws_response", H(0))
                return [(s, VOID)]
            if n == "run":
                return self.result(st, e, "ws", "ws_run", H(0), self.held(Ref(this), st))
            return None
        if b == "std::any" and this is not None:
            if n == "operator=" or ctor and args:
                s = st.copy()
                if this[-1][0] == "key":
                    self.log(s, "state", this[:-1], H(0))
                return self.hold(s, this, H(0))
            if n.startswith("~") or ctor:
                return [(st, VOID if not ctor else Ref(this))]
        if n == "any_cast" and len(args) == 1:
            p = self.raw(args[0], st) if isinstance(args[0], Ref) else args[0]
            ptr = isinstance(p, Ptr)
            l = p.loc if ptr else args[0].loc
            w = st.mem.get(l)
            T = unq(e.get("t", "")).rstrip("*& ")
            ok = isinstance(w, Tok) and w.k[:1] == ("ws",) and sq(T.replace("const ", "")) == "web::websocket"
            if not ok and w is not None and not (isinstance(w, Tok) and w.k[:1] == ("ws",)):
                raise AnalysisError("a state of unknown kind")
            return [(st, (Ptr(l) if ptr else Ref(l)) if ok else Ptr(None))]
        if b == "std::unordered_map" and this is not None and n == "operator[]":
            l = this + (("key", repr(H(0))),)
            return [(st, Ref(l))]
        if b == "std::type_index" and ctor:
            return self.hold(st, this, V("type", repr(H(0))))
        if own == "web::response_builder" or own == "web::response":
            return self.response(n, ctor, own, st, this, args, e)
        if own == "web::any_body" and this is not None:
            t = self.held(Ref(this), st)
            if n == "size":
                return [self.give(st, e["t"], V("bodysize", t))]
            if n == "stream":
                return [self.give(st, e["t"], V("bodystream", t))]
            return None
        if own.startswith("http::status_code") and this is not None:
            t = self.held(Ref(this), st)
            if ctor:
                return self.hold(st, this, H(0))
            if n.startswith("~"):
                return [(st, VOID)]
            if n in ("value", "category", "value_int", "operator status"):
                return self.status(n, t, st)
            return None
        if own == "http::header_map":
            if n == "from_impl":
                return [self.give(st, e["t"], V("from_fields", H(0)))]
            if n == "to_impl" and this is not None:
                return self.outgoing("to_impl", st, args[0].loc, [Ref(this)], e)
            return None
        if n == "from_impl_version":
            return [self.give(st, e["t"], V("from_version", H(0)))]
        if n == "to_impl_version":
            return [(st, V("to_version", H(0)))]
        if own == "web::query_map" and n == "from":
            return [self.give(st, e["t"], V("from_query", H(0)))]
        if own in ("web::path_info", "web::connect_info") and ctor:
            w = [H(i) for i in range(len(args))]
            if len(w) == 1 and isinstance(w[0], Tok) and w[0].k[:1] == ("v",) and w[0].k[1] in ("path_info", "connect"):
                return self.hold(st, this, w[0])
            return self.hold(st, this, V("path_info" if own.endswith("path_info") else "connect", *w))
        if own == "web::request" and this is not None:
            if ctor:
                w = [H(i) for i in range(len(args))]
                return self.hold(st, this, w[0] if len(w) == 1 else Tok("req", *w))
            if n.startswith("~"):
                return [(st, VOID)]
            return None
        if own.split("<")[0] == "web::router" and this is not None and n != "try_find":
            if n.startswith("~") or n == "optimize":
                return [(st, VOID)]
            if n == "operator=" or ctor:
                return self.hold(st, this, Tok("routes"))
            return None
        if own.split("<")[0] == "web::router" and this is not None:
            return self.find(st, e, [H(i) for i in range(len(args))])
        if own.split("<")[0] == "web::any_routable" and this is not None:
            if n == "operator()":
                s = st.copy()
                self.log(s, "handle", H(0))
                return [self.give(s, self.a_type(e), Tok("res", "handler"))]
            if n in ("matcher", "states", "method"):
                return [self.give(st, e["t"], V(n, self.held(Ref(this), st)))]
        if own == "web::path_matcher" and this is not None:
            if n == "match":
                s = st.copy()
                l = self.tmp(unq(e["t"]))
                self.vset(l, s, "some")
                s.mem[l + (("val",),)] = V("match", self.held(Ref(this), st), H(0))
                return [(s, Ref(l))]
            if n == "pattern":
                return [self.give(st, e["t"], V("pattern", self.held(Ref(this), st)))]
        if own == "web::state_storage" and this is not None:
            if n.startswith("copy_prepend"):
                return [self.give(st, e["t"], V("prepend", self.held(Ref(this), st), H(0)))]
            if ctor and len(args) == 1:
                return self.hold(st, this, H(0))
        if own == "web::any_async_readable_stream" and ctor and len(args) == 1:
            return self.hold(st, this, H(0))
        if own.startswith("web::async_message_parser_stream") and ctor:
            w = [H(i) for i in range(len(args))]
            return self.hold(st, this, w[0] if len(w) == 1 else V("msg_stream", *w))
        if own.startswith("web::async_readable_vector_stream") and ctor:
            w = [H(i) for i in range(len(args))]
            return self.hold(st, this, w[0] if len(w) == 1 else V("nothing", *w))
        if own.startswith(("web::any_async", "web::async_", "web::path_info", "web::connect_info", "http::header_map", "web::query_map",
                           "web::state_storage")) and n.startswith("~"):
            return [(st, VOID)]
        if q.startswith("mime::") and this is None:
            return [self.give(st, e["t"], V("mime", n))]
        if rec.startswith("mime::mime_view") and this is not None:
            return [self.give(st, e["t"], self.held(Ref(this), st))]
        if b == "overloaded" and ctor:
            return self.hold(st, this, Tok("over", *[a.loc for a in args]))
        if n == "visit" and this is None and len(args) == 2:
            return self.visit(st, args, e)
        if n == "do_response" and this is not None and self.own_response and len(args) == 3:
            return self.result(st, e, "respond", "respond", H(1), H(2))
        if n in ("async_read_header", "async_read_until_eof", "async_write", "async_write_header", "async_write_chunks") and this is None:
            return self.io(n, st, args, e)
        if n in ("cmp_eq_ci", "iequals") and len(args) == 2:
            return self.same_text(st, args, True)
        if n in ("operator==", "operator!=", "operator==<char, std::char_traits<char>>") and this is None and len(args) == 2:
            a, c = H(0), H(1)
            if any(isinstance(x, Tok) and x.k[:2] in (("v", "find"), ("v", "end")) for x in (a, c)):
                its = {x.k[1] for x in (a, c)}
                if its != {"find", "end"}:
                    raise AnalysisError("places among the headers are compared")
                f = a if a.k[1] == "find" else c
                return self.header(st, f, lambda s, kind: [(s, TRUE if (kind == "none") == (n[8:10] == "==") else FALSE)])
            if any(isinstance(x, Tok) and x.k[:2] == ("v", "hvalue") for x in (a, c)):
                r = self.same_text(st, args, False)
                return r if n[8:10] == "==" else [(s, FALSE if v == TRUE else TRUE) for s, v in r]
        if n == "is_upgrade" and this is None:
            return self.ask(st, V("upgrade", H(0)))
        if n == "parse_origin_form":
            return [self.give(st, e["t"], V("url", H(0)))]
        if b == "boost::system::result" and this is not None:
            return self.sysresult(n, st, this, e)
        if b.startswith("boost::") and this is not None and not rec.startswith("boost::system::error"):
            return self.beast(n, b, rec, ctor, st, this, args, e)
        if b == "std::chrono::duration" and ctor and len(args) == 1:
            v = self.number(args[0], st)
            src = self.a_ty(e, 0)
            return self.hold(st, this, self.scaled(v, src, unq(fn["rec"])))
        if q.startswith("net::") or b.startswith("std::chrono"):
            return None
        return None

    def a_ty(self, e, i):
        ea = e.get("args", [])
        return unq(ea[i].get("t", "")).replace("const ", "").rstrip("& ") if i < len(ea) and ea[i] else ""

    def period(self, ty):
        if not ty.startswith("std::chrono::duration"):
            return None
        a = targs(ty)
        if len(a) < 2:
            return 1, 1
        r = [int(x) for x in targs(a[1].strip())]
        return (r + [1])[0], (r + [1])[1]

    def scaled(self, v, src, dst):
        a, c = self.period(src), self.period(dst)
        if a is None or c is None or a == c:
            return v
        k = a[0] * c[1], a[1] * c[0]
        if k[0] % k[1]:
            raise AnalysisError("a time is rounded")
        return v.scale(k[0] // k[1])

    def shared(self, n, ctor, st, this, args, e):
        s = st.copy()
        if n.startswith("~"):
            return [(st, VOID)]
        if ctor or n == "operator=":
            p = self.raw(args[0], st) if args and isinstance(args[0], Ref) else args[0] if args else Ptr(None)
            if not isinstance(p, Ptr):
                if isinstance(args[0], Ref) and isinstance(st.mem.get(args[0].loc), Tok):
                    p = st.mem[args[0].loc]
                else:
                    raise AnalysisError("a shared pointer of unknown value")
            s.mem[this] = p
            if args and isinstance(args[0], Ref) and self.rvalue(e, 0) and args[0].loc != this and args[0].loc[0][0] != "t":
                s.mem[args[0].loc] = Ptr(None)
            return [(s, Ref(this))]
        p = st.mem.get(this)
        if not isinstance(p, Ptr):
            raise AnalysisError("a shared pointer of unknown value")
        if n in ("operator->", "operator*", "get"):
            if p.loc is None and n != "get":
                self.complain(e, "uses an object that was given away")
                return []
            return [(st, Ref(p.loc) if n == "operator*" else p)]
        if n.startswith("operator bool"):
            return [(st, TRUE if p.loc is not None else FALSE)]
        raise AnalysisError("%s() of a shared pointer" % n)

    def stream(self, n, ctor, st, this, args, e):
        if ctor:
            return self.hold(st, this, self.held(args[0], st))
        if n.startswith("~"):
            return [(st, VOID)]
        if n in ("expires_after", "expires_at"):
            s = st.copy()
            self.log(s, "expires", self.number(args[0], s))
            return [(s, VOID)]
        if n == "expires_never":
            s = st.copy()
            self.log(s, "never")
            return [(s, VOID)]
        if n == "socket":
            return [self.give(st, e["t"], V("socket", Tok("stream")))]
        if n in ("shutdown", "close", "cancel"):
            s = st.copy()
            self.log(s, n)
            return [(s, VOID)]
        if n == "async_shutdown":
            return self.result(st, e, "shutdown", "shutdown")
        if n == "get_executor":
            return [self.give(st, e["t"], V("executor"))]
        raise AnalysisError("%s() of the connection" % n)

    def number(self, v, st):
        for _ in range(4):
            if isinstance(v, Lin):
                return v
            if isinstance(v, Ref):
                w = st.mem.get(v.loc)
                if w is None:
                    sub = [x for k, x in st.mem.items() if k[:len(v.loc)] == v.loc and isinstance(x, Lin)]
                    w = sub[0] if len(sub) == 1 else None
                v = w
        raise AnalysisError("a number that is not known")

    def response(self, n, ctor, own, st, this, args, e):
        if ctor:
            w = self.held(args[0], st) if args else None
            if isinstance(w, Tok) and w.k[:1] == ("res",):
                s = st.copy()
                s.mem[this] = w
                if self.rvalue(e, 0) and args[0].loc[0][0] != "t":
                    s.mem[args[0].loc] = Tok("res", "moved")
                return [(s, Ref(this))]
            if len(args) == 1 and isinstance(w, Lin) and w.const:
                return self.hold(st, this, Tok("res", w.c))
            if not args:
                return self.hold(st, this, Tok("res", 200))
            return None
        t = self.held(Ref(this), st) if this is not None else None
        if this is None:
            return None
        if n.startswith("~"):
            return [(st, VOID)]
        if n == "operator=":
            w = self.held(args[0], st)
            return self.hold(st, this, w)
        if not (isinstance(t, Tok) and t.k[:1] == ("res",)):
            return None
        if t == Tok("res", "moved"):
            self.complain(e, "uses a response that was given away")
            return []
        if n in ("status", "version", "headers", "body") and not args:
            return [self.give(st, e["t"], V("r" + n, t))]
        if n == "set_status":
            w = self.held(args[0], st)
            if not isinstance(w, Lin):
                raise AnalysisError("a status that is not known")
            return self.hold(st, this, Tok("res", w.c, *t.k[2:]))
        if n in ("set_header", "insert_header", "set_version", "builder", "set_body", "build", "set_stream_body"):
            if unq(e.get("t", "")).endswith("builder") and e.get("lv"):
                return [(st, Ref(this))]
            return [self.give(st, e["t"], t)]
        return None

    def status(self, n, t, st):
        """the number of a status, or its class"""
        def as_(c):
            if n != "category":
                return Lin(c)
            return Lin(self.k[{1: "c1", 2: "c2", 3: "c3", 4: "c4", 5: "c5"}[c // 100]])
        if isinstance(t, Lin):
            return [(st, as_(t.c))]
        if isinstance(t, Tok) and t.k[:2] == ("v", "rstatus"):
            r = t.k[2]
            if isinstance(r.k[1], int):
                return [(st, as_(r.k[1]))]
            return [(s, as_(STATUS[c])) for s, c in self.case(st, t, tuple(STATUS))]
        raise AnalysisError("a status that is not known")

    def find(self, st, e, a):
        out = []
        ty = unq(e["t"])
        for s, v in self.case(st, V("found"), (True, False)):
            s = s.copy()
            self.log(s, "find", *a)
            if v:
                l = self.expected(s, ty)
                s.mem[l + (("val",),)] = Ref(ROUTE)
                s.mem[ROUTE] = Tok("v", "route")
            else:
                l = self.expected(s, ty, err=("io", "route", 0))
            out.append((s, Ref(l)))
        return out

    def sysresult(self, n, st, this, e):
        t = self.held(Ref(this), st)
        if n.startswith("~"):
            return [(st, VOID)]
        if n.startswith("operator bool") or n == "has_value":
            return self.ask(st, t)
        if n == "has_error":
            return [(s, FALSE if v == TRUE else TRUE) for s, v in self.ask(st, t)]
        if n in ("operator->", "operator*", "value"):
            if self.known(st, t) is not True:
                self.complain(e, "uses the target of a request without knowing that it is one")
                return []
            return [(st, Ptr(this) if n == "operator->" else Ref(this))]
        raise AnalysisError("%s() of a target" % n)

    def visit(self, st, args, e):
        f, x = self.held(args[0], st), self.held(args[1], st)
        if not (isinstance(x, Tok) and x.k[:2] == ("v", "bodysize")):
            raise AnalysisError("a variant of unknown contents")
        ls = list(f.k[1:]) if isinstance(f, Tok) and f.k[:1] == ("over",) else [args[0].loc]
        out = []
        for s, kind in self.case(st, x, KINDS):
            fit, any_ = [], []
            for l in ls:
                c = s.mem.get(l + (("?fn",),))
                r = self.p.fns.get(c.id) if isinstance(c, Fn) else None
                if r is None:
                    raise AnalysisError("a visitor that is not known")
                t = unq(r["params"][0]["t"]) if r.get("params") else ""
                (fit if t.rstrip("& ").endswith("any_body::" + kind) else any_ if "any_body" not in t else []).append(l)
            if len(fit or any_) != 1:
                raise AnalysisError("a visitor that is not known")
            a = self.tmp("fitoria::web::any_body::" + kind)
            out += self.call_value(Ref((fit or any_)[0]), [Ref(a)], s, e)
        return out

    def same_text(self, st, args, ci):
        for i in (0, 1):
            w = self.held(args[i], st)
            if isinstance(w, Tok) and w.k[:2] == ("v", "hvalue"):
                t = self.lit(args[1 - i], st)
                if t is None:
                    raise AnalysisError("a header is compared with something unknown")

                def f(s, kind):
                    if t.lower() != "100-continue" if ci else t != "100-continue":
                        if ci or t.lower() != "100-continue":
                            raise AnalysisError("a header is compared with %r" % t)
                    return [(s, TRUE if kind == "100-continue" or ci and kind == "100-Continue" else FALSE)]
                return self.header(st, w.k[2], f)
        return None

    def header(self, st, f, then):
        """cases of the Expect header"""
        if f.k[2:] and f.k[3] != Lin(self.k["expect"]):
            raise AnalysisError("a header that is not known")
        return [x for s, kind in self.case(st, V("expect", f.k[2]), ("none", "100-continue", "100-Continue", "else")) for x in then(s, kind)]

    def beast(self, n, b, rec, ctor, st, this, args, e):
        if b.endswith("::http::message") and ("<false" in rec or "message<false" in unq(e.get("t", ""))) or isinstance(st.mem.get(this), Tok) and st.mem[this].k[:1] == ("out",):
            return self.outgoing(n if not ctor else "ctor", st, this, args, e)
        if ctor:
            if len(args) == 1 and isinstance(args[0], Ref) and "serializer" in b:
                return self.hold(st, this, V("ser", args[0].loc))
            if len(args) == 1:
                return self.hold(st, this, self.held(args[0], st))
            return self.hold(st, this, V("new", b))
        if n.startswith("~"):
            return [(st, VOID)]
        t = self.held(Ref(this), st)
        w = [self.held(a, st) for a in args]
        if n in ("header_limit", "body_limit"):
            s = st.copy()
            x = w[0]
            self.log(s, n, this, x)
            return [(s, VOID)]
        if n in ("get", "release", "base") and not w:
            m = t if n == "base" else V("msg", t)
            if "parser" in b:
                l = this + (("msg",),)
                s = st.copy()
                s.mem[l] = m
                return [(s, Ref(l))]
            return [(st, Ref(this))]
        if n in ("find", "end", "operator[]", "at") and ("fields" in b or "message" in b):
            if n == "operator[]" or n == "at":
                return [self.give(st, e["t"], V("hvalue", V("find", t, *w)))]
            return [self.give(st, e["t"], V(n, t, *w))]
        if n in ("operator->", "operator*") and isinstance(t, Tok) and t.k[:2] == ("v", "find"):
            if any(k == "none" for s, k in self.case(st, V("expect", t.k[2]), ("x",))):
                self.complain(e, "reads a header that is not there")
                return []
            l = this
            return [(st, Ptr(l) if n == "operator->" else Ref(l))]
        if n == "value" and isinstance(t, Tok) and t.k[:2] == ("v", "find"):
            return [self.give(st, e["t"], V("hvalue", t))]
        ty = unq(e.get("t", ""))
        if n.startswith("operator ") and ty != "bool" and not w:
            return [self.give(st, ty, t)]
        if ty == "bool":
            if n in ("keep_alive", "chunked", "has_content_length", "need_eof") and isinstance(t, Tok) and t.k[:2] == ("v", "msg"):
                t = t.k[2]      # a parser and its message say the same
            if n == "is_done":
                w = [sum(x[0] in ("handle", "ws_run") for x in self.trace(st))]
            return self.ask(st, V(n, t, *w))
        if ty == "void":
            raise AnalysisError("%s() of something of a library" % n)
        term = V(n, t, *w)
        if self.is_class(ty.rstrip("& ")):
            return [self.give(st, ty, term)]
        return [(st, term)]

    # ------------------------------------------------------------ a message that goes out
    def outgoing(self, n, st, l, args, e):
        s = st.copy()
        w = [self.held(a, st) for a in args]
        r = st.mem.get(l)
        if n == "ctor":
            if len(w) >= 2:
                s.mem[l] = Tok("out", w[0], w[1], None, None, None, "none", Tok("nobody"))
                return [(s, Ref(l))]
            if not w:
                s.mem[l] = Tok("out", None, None, None, None, None, "none", Tok("nobody"))
                return [(s, Ref(l))]
            if isinstance(w[0], Tok) and w[0].k[:1] == ("out",):
                s.mem[l] = w[0]
                return [(s, Ref(l))]
            raise AnalysisError("a message made of something unknown")
        if n.startswith("~"):
            return [(st, VOID)]
        if not (isinstance(r, Tok) and r.k[:1] == ("out",)):
            raise AnalysisError("a message of unknown contents")
        status, version, headers, ka, te, cl, body = r.k[1:]
        if n == "body":
            return [(st, Ref(l + (("outbody",),)))]
        if l + (("outbody",),) in st.mem:
            body = st.mem[l + (("outbody",),)]
        else:
            ps = self.bytes_of(l + (("outbody",),), st)
            if ps is not None:
                body = Tok("bytes", ps)
        if n == "to_impl":
            headers, ka, te, cl = w[0], "given", "given", "given"
        elif n == "keep_alive" and len(w) == 1:
            ka = w[0]
        elif n == "chunked" and len(w) == 1:
            te, cl = w[0], "none"
        elif n == "prepare_payload":
            cl, te = ("of", body), None
        elif n == "content_length" and len(w) == 1:
            cl = "none" if isinstance(w[0], Tok) and "none" in repr(w[0]) else ("is", w[0])
        elif n == "result" and len(w) == 1:
            status = w[0]
        elif n == "version" and len(w) == 1:
            version = w[0]
        else:
            raise AnalysisError("%s() of a message" % n)
        s.mem[l] = Tok("out", status, version, headers, ka, te, cl, body)
        return [(s, VOID)]

    # ------------------------------------------------------------ reading and writing
    def io(self, n, st, args, e):
        if not (isinstance(args[0], Ref) and args[0].loc == STREAM) and n != "async_read_until_eof":
            raise AnalysisError("another connection")
        if n == "async_read_header":
            k = sum(x[0] == "read" for x in self.trace(st))
            if k >= self.most_reads:
                return []
            out = []
            for kind in ("ok", "limit", "error") if k == 0 else ("error",):
                s = st.copy()
                self.log(s, "read", args[1].loc, args[2].loc, kind)
                ty = self.a_type(e)
                if kind == "ok":
                    out.append((s, Ref(self.expected(s, ty, v=sym(self.fresh("n", "unsigned long"))))))
                else:
                    out.append((s, Ref(self.expected(s, ty, err=("enum", "boost::beast::http::error", self.k["header_limit"])
                                                     if kind == "limit" else ("io", "read", k)))))
            return out
        if n == "async_read_until_eof":
            t = self.held(args[0], st)
            out = []
            for kind in ("ok", "eof", "error"):
                s = st.copy()
                self.log(s, "body", t, kind)
                ty = self.a_type(e)
                if kind == "ok":
                    l = self.expected(s, ty)
                    s.mem[l + (("val",),)] = V("whole", t)
                    self.lty[l + (("val",),)] = targs(ty)[0]
                else:
                    l = self.expected(s, ty, err=("enum", "boost::asio::error::misc_errors", self.k["eof"]) if kind == "eof" else ("io", "body", 0))
                out.append((s, Ref(l)))
            return out
        if n == "async_write_chunks":
            return self.result(st, e, "chunks", "chunks", self.held(args[1], st))
        w = self.held(args[1], st)
        l = args[1].loc
        if isinstance(w, Tok) and w.k[:2] == ("v", "ser"):
            l = w.k[2]
            w = st.mem.get(l)
        if not (isinstance(w, Tok) and w.k[:1] == ("out",)):
            raise AnalysisError("something unknown is written: %r" % (w,))
        if l + (("outbody",),) in st.mem:
            w = Tok(*(w.k[:-1] + (st.mem[l + (("outbody",),)],)))
        return self.result(st, e, n, "write" if n == "async_write" else "header", w)


# ---------------------------------------------------------------- the rules
SERVER = (("ext", "server"),)
BUILDER = (("ext", "builder"),)
RES = (("ext", "res"),)
YES, NO = TRUE, FALSE


def at(it, st, x):
    return Tok("at", x)


def subsets(keys):
    out = [{}]
    for k, vs in keys:
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out


class Wrong(Exception):
    pass


class Unsure(Exception):
    pass


def say(ok, key, text, *terms):
    """a rule; what it compares must be in words that are known"""
    if not ok:
        if any(o not in KNOWN for t in terms for o in ops(t)):
            raise Unsure("%s: in other words" % text)
        raise Wrong(key, text)


def answer(cfg, tr, o, it, final):
    """what one request of a session has to do; tr: the events, o: how the session ended"""
    r = [i for i, x in enumerate(tr) if x[0] == "read"]
    if not r:
        raise Wrong("reads", "the session ends without reading a request")
    first = tr[r[0]]
    buf, P = first[1], first[2]
    before, after = tr[:r[0]], tr[r[0] + 1:]
    nxt = tr[r[1]] if len(r) > 1 else None
    if nxt is not None:
        after = tr[r[0] + 1:r[1]]
    for i, x in enumerate((first,) + ((nxt,) if nxt is not None else ())):
        part = before if i == 0 else after
        lim = {k: [y[2] for y in part if y[0] == k and y[1] == x[2]] for k in ("header_limit", "body_limit")}
        for k, most in (("header_limit", 2 ** 32 - 1), ("body_limit", 2 ** 64 - 1)):
            want = cfg[k] if cfg[k] is not None else Lin(most)
            got = lim[k][-1] if lim[k] else None
            if isinstance(got, Tok):
                raise Unsure("a limit")
            if got != want:
                raise Wrong(k, "a request is read with a %s of %r where %r was asked for" % (k.replace("_", " "), got, want))
        ex = [y for y in part if y[0] in ("expires", "never")]
        if cfg["timeout"] is not None:
            if not ex or ex[-1] != ("expires", cfg["timeout"]):
                raise Wrong("timeout", "a request is read without the time limit that was asked for")
        elif any(y[0] == "expires" for y in ex):
            raise Wrong("timeout", "a request is read with a time limit although none was asked for")
        if x[2] in [y[2] for y in tr[:r[i]] if y[0] == "read"]:
            raise Wrong("fresh", "a second request is read into what holds the first")
        if x[1] != buf:
            raise Wrong("buffer", "what was received after a request is not where the next one is looked for")
    acts = [x for x in after if x[0] in ("respond", "write", "handle", "ws_run", "header", "chunks", "body", "shutdown", "close", "cancel")]
    if any(x[0] in ("header", "chunks", "body", "shutdown", "close", "cancel") for x in acts):
        raise Unsure("the connection is used in another way")
    if first[3] == "error":
        if acts:
            raise Wrong("readfail", "the session goes on after a failed read: %s" % acts[0][0])
        if o != ("error", ("io", "read", 0)):
            raise Wrong("readfail", "ends with %r after a failed read" % (o,))
        return
    if first[3] == "limit":
        say(len(acts) == 1 and acts[0][0] == "respond" and acts[0][1] == Tok("res", 400), "toolong",
            "a request whose headers are too long is not answered by one 400 response: %s" % [x[:2] for x in acts])
        if acts[0][2] != NO:
            raise Wrong("toolong", "the answer to a request whose headers are too long says that the connection stays open")
        over(acts[0][-1], o, nxt, False, "toolong")
        return
    m = V("msg", at(it, None, P))
    pt = at(it, None, P)
    url = V("url", V("target", m))
    keys = {"ka": V("keep_alive", pt), "up": V("upgrade", m), "ex": V("expect", m), "valid": url, "found": V("found"),
            "len": V("has_content_length", pt), "chunked": V("chunked", pt)}
    asked = {x[1]: x[2] for x in tr if x[0] == "case"}
    st = V("rstatus", Tok("res", "handler"))
    keys["status"] = st
    hd = sum(x[0] in ("handle", "ws_run") for x in after)
    keys["done"] = V("is_done", pt, hd)
    other = [k for k in asked if k not in keys.values() and not (isinstance(k, Tok) and k.k[:2] == ("v", "is_done"))]
    opts = {"ex": ("none", "100-continue"), "status": ("101", "other")}
    free = [(k, opts.get(k, (True, False))) for k in keys if keys[k] not in asked]
    given = {k: asked[t] for k, t in keys.items() if t in asked}
    for extra in subsets(free):
        try:
            request(cfg, dict(given, **extra), acts, after, o, nxt, it, buf, P, m, url)
        except Wrong as w:
            if other:
                raise Unsure("decided by %r" % (other[0],))
            raise w


def over(result, o, nxt, goes_on, key):
    """how a session is over after its last act"""
    if result != "ok":
        if nxt is not None or o != ("error", result):
            raise Wrong(key + ":failed", "a failed write does not end the session with its error (%r)" % (o,))
        return
    if goes_on:
        if nxt is None:
            raise Wrong(key + ":kept", "the session ends although the connection is to be kept and the request was read to its end")
        return
    if nxt is not None:
        raise Wrong(key + ":goeson", "the session reads another request where it has to end")
    if o != ("ok",):
        raise Wrong(key + ":ends", "the session ends with %r although nothing failed" % (o,))


def request(cfg, c, acts, after, o, nxt, it, buf, P, m, url):
    is100 = c["ex"] in ("100-continue", "100-Continue")
    never = any(x[0] == "never" for x in after)
    handled = c["valid"] and c["found"]
    acts = list(acts)
    if acts and acts[0][0] == "write":
        w = acts.pop(0)
        rec = w[1].k[1:]
        if rec[0] != Lin(100) or rec[1] != Lin(11) or rec[-1] != Tok("nobody"):
            if not isinstance(rec[0], Lin) or not isinstance(rec[1], Lin):
                raise Unsure("an interim response")
            raise Wrong("continue", "an interim response that is not 100 (Continue) of version 1.1: %r %r" % (rec[0], rec[1]))
        if c["up"]:
            raise Wrong("continue", "100 (Continue) is sent for an upgrade, for which the websocket sends it")
        if not is100:
            raise Wrong("continue", "100 (Continue) is sent although the request does not expect it (Expect: %s)" % c["ex"])
        if w[-1] != "ok":
            if acts:
                raise Wrong("continue", "the session goes on after a failed write")
            over(w[-1], o, nxt, False, "continue")
            return
    elif is100 and not c["up"] and handled:
        raise Wrong("continue", "100 (Continue) is not sent although the request expects it")
    if any(x[0] == "write" for x in acts):
        raise Wrong("twice", "more than one interim response, or one after the handler was called")
    hs = [x for x in acts if x[0] == "handle"]
    if handled:
        if len(hs) != 1:
            raise Wrong("handler", "the handler of a request is called %d times" % len(hs))
        f = [x for x in after if x[0] == "find"]
        for x in f:
            say(x[1:] == (V("method", m), V("path", url)), "find", "the route is not looked for by the method and the path of the request", *x[1:])
        composed(hs[0][1], c, it, buf, P, m, url, after)
    elif hs:
        raise Wrong("handler", "a handler is called although no route was found, or without a target")
    end = [x for x in acts if x[0] in ("respond", "ws_run")]
    if len(end) != 1 or end[0] is not acts[-1]:
        raise Wrong("once", "a request is answered %d times%s" % (len(end), "" if not end else ", or before its handler was called"))
    end = end[0]
    ws = handled and c["up"] and c["status"] == "101"
    if (end[0] == "ws_run") != bool(ws):
        raise Wrong("upgrade", "a websocket is %s, by a request that is %san upgrade and a response with status %s"
                    % ("not run" if ws else "run", "" if c["up"] else "not ", c["status"] if handled else "of an error"))
    if ws:
        if cfg["timeout"] is not None and not never:
            raise Wrong("wstime", "a websocket is run under the time limit of requests")
        r = [x for x in after if x[0] == "ws_response"]
        if [x[1] for x in r] != [Tok("res", "handler")]:
            raise Wrong("wsresponse", "a websocket is not run with the response of the handler")
        say(end[1] == m, "wsrequest", "a websocket is not accepted with the request", end[1])
        if nxt is not None:
            raise Wrong("wsover", "after a websocket, what follows on the connection is read as another request")
        if end[-1] != "ok" and o != ("error", end[-1]):
            raise Wrong("wsfailed", "the error of a websocket does not end the session")
        return
    if never and cfg["timeout"] is not None and not c["up"]:
        raise Wrong("never", "the time limit of a request that is not an upgrade is lifted")
    want = Tok("res", "handler" if handled else 404 if c["valid"] else 400)
    say(end[1] == want, "response", "a request %s is answered with %r" % ("with a handler" if handled else "without a route" if c["valid"]
                                                                           else "without a valid target", end[1]), end[1])
    if end[2] not in (YES, NO):
        if end[2] != V("keep_alive", Tok("at", P)):
            raise Unsure("whether the connection is kept")
    else:
        if not c["ka"] and end[2] == YES:
            raise Wrong("keepalive", "a response says that the connection is kept although the request does not want it")
        if c["ka"] and c["done"] and end[2] == NO:
            raise Wrong("keepalive", "a response says that the connection is closed although the request wants it kept")
    over(end[-1], o, nxt, c["ka"] and c["done"], "after")


PARTS_OF = ("the connection", "the path", "the method", "the version", "the headers", "the query", "the body", "the states")


def composed(req, c, it, buf, P, m, url, after):
    if not (isinstance(req, Tok) and req.k[:1] == ("req",)):
        raise Unsure("a request")
    got = list(req.k[1:])
    if len(got) != 8:
        raise Unsure("what a request is made of")
    mt = V("matcher", V("route"))
    path = V("path", url)
    conn = Tok("stream")
    body = [V("nothing")] if not c["len"] and not c["chunked"] else [V("msg_stream", *x) for x in perms((Tok("at", buf), conn, Tok("at", P)))]
    pre = [x for x in got if isinstance(x, Tok) and x.k[:2] == ("v", "prepend")]
    if len(pre) != 1:
        if not any(isinstance(x, Tok) and x.k[:2] == ("v", "states") for x in got):
            raise Unsure("the states of a request")
        raise Wrong("states", "a request does not have the states of the session")
    say(pre[0].k[2] == V("states", V("route")), "states", "a request does not have the states of its route", pre[0])
    mp = pre[0].k[3]
    at_ = after.index([x for x in after if x[0] == "handle"][0])
    held = [x for x in after[:at_] if x[0] == "state"]
    if c["up"]:
        if not isinstance(mp, Tok) or mp.k[:1] != ("at",):
            raise Unsure("the states of a session")
        if not any(x[1] == mp.k[1] and x[2] == Tok("ws", conn) for x in held):
            raise Wrong("wsstate", "an upgrade is handled without the websocket of its connection among the states")
    elif held:
        raise Wrong("wsstate", "a request that is not an upgrade has a websocket")
    want = [[V("connect", V("socket", conn))], [V("path_info", V("pattern", mt), path, V("match", mt, path))], [V("method", m)],
            [V("from_version", V("version", m))], [V("from_fields", m)], [V("from_query", V("params", url))], body, pre]
    rest = list(got)
    for n, w in zip(PARTS_OF, want):
        hit = [x for x in rest if x in w]
        if hit:
            rest.remove(hit[0])
        else:
            say(False, "request:" + n, "a request is made without %s it came with (has %r)" % (n, [x for x in got if not any(x in y for y in want)]),
                *[x for x in got if not any(x in y for y in want)])


def perms(xs):
    import itertools
    return [list(p) for p in itertools.permutations(xs)]


KNOWN |= {"nothing", "msg_stream", "from_version", "socket", "route", "states", "keep_alive", "version", "method"}


# ---------------------------------------------------------------- the parts
def begin(it):
    it.run_setup()
    it.frames, it.rets, it.tc = it.frames[:1], [[]], [[]]


def ctor_at(it, f, args, st, loc):
    begin(it)
    e = {"k": "CXXConstructExpr", "t": f["rec"], "cls": f["rec"], "args": [{"t": p["t"], "lv": 2} for p in f["params"]], "l": f["l"]}
    return it.call_body(f, loc, args, st, e, True)


def fns(prog, n, cls="http_server"):
    return [f for f in prog.fns.values() if f.get("n") == n and f.get("body") is not None and cls in f["qn"]]


def built(it, prog, settings):
    """a server, built by the builder: [(state, where it is)]"""
    bs = [f for f in prog.fns.values() if f["qn"].endswith("http_server::builder::builder")
          and f.get("body") is not None and len(f["params"]) == 1 and "executor" in f["params"][0]["t"]]
    if len(bs) != 1:
        raise AnalysisError("how a server is built is not known")
    st = St()
    ex = (("ext", "ex"),)
    it.lty[ex] = unq(bs[0]["params"][0]["t"]).replace("const ", "").rstrip("& ")
    st.mem[ex] = V("ex")
    sts = [s for s, _ in ctor_at(it, bs[0], [Ref(ex)], st, BUILDER)]
    for n, v in settings.items():
        for f in fns(prog, n):
            if f.get("refq", it.way) != it.way:
                continue
            ty = unq(f["params"][0]["t"])
            nxt = []
            for s in sts:
                s = s.copy()
                if isinstance(v, Lin) and "optional" not in ty:
                    a = v
                else:
                    l = (("ext", "arg:" + n),)
                    it.lty[l] = ty.rstrip("& ")
                    it.vset(l, s, "none" if v is None else "some")
                    if v is not None:
                        s.mem[l + (("val",),)] = v
                    a = Ref(l)
                nxt += [x for x, _ in it.run(f, [a], s, BUILDER)[0]]
            sts = nxt
    b = fns(prog, "build")
    if len(b) != 1:
        raise AnalysisError("how a server is built is not known")
    out = []
    for s in sts:
        for x, v in it.run(b[0], [], s, BUILDER)[0]:
            if not isinstance(v, Ref):
                raise AnalysisError("what is built is not known")
            out.append((x, v.loc))
    return out


SET = {"set_request_timeout": Lin(7), "set_request_header_limit": Lin(1000), "set_request_body_limit": Lin(2000), "set_tls_handshake_timeout": Lin(11),
       "set_max_listen_connections": Lin(33)}
UNSET = {"set_request_timeout": None, "set_request_header_limit": None, "set_request_body_limit": None, "set_tls_handshake_timeout": None}


def configs():
    yield {"timeout": Lin(7), "header_limit": Lin(1000), "body_limit": Lin(2000)}, SET
    yield {"timeout": None, "header_limit": None, "body_limit": None}, UNSET


def session(rep, prog, stream):
    fs = [f for f in fns(prog, "do_session_impl") if STREAMS[stream] in f["params"][0]["t"]]
    if len(fs) != 1:
        raise AnalysisError("the session of %s is not known" % stream)
    f = fs[0]
    n = 0
    for cfg, settings in configs():
        it = Sess(prog, rep)
        for s, srv in built(it, prog, settings):
            s = s.copy()
            s.mem[STREAM] = Tok("stream")
            it.lty[STREAM] = unq(f["params"][0]["t"]).rstrip("& ")
            ends, thrown = it.run(f, [Ref(STREAM)], s, srv)
            if thrown:
                raise AnalysisError("a session that throws")
            for x, v in ends:
                n += 1
                try:
                    answer(cfg, it.trace(x), it.outcome(v, x), it, x)
                except Wrong as w:
                    rep.violation("session:" + w.args[0], f, None, w.args[1])
                except Unsure as u:
                    rep.undecided("session " + stream, str(u))
        flush(rep, it, "session")
    rep.analysed(f)
    rep.obligation("courses of a request compared", n)


def outgoing(it, tr):
    return [x for x in tr if x[0] in ("write", "header", "chunks", "body")]


def message(x, c, ka, kind, body):
    """the message that goes out for a response"""
    status, version, headers, keep, te, cl, b = x[1].k[1:]
    r = Tok("res", "handler")
    stat = V("rstatus", r)
    got = status.c if isinstance(status, Lin) and status.const else status
    say(got == stat or isinstance(got, int) and got == STATUS.get(c), "status", "a response goes out with another status: %r" % (status,), status)
    say(version == V("to_version", V("rversion", r)), "version", "a response goes out with another version: %r" % (version,), version)
    say(headers == V("rheaders", r), "headers", "a response goes out without its headers: %r" % (headers,), headers)
    if keep not in (YES, NO):
        if keep == "given" or keep is None:
            raise Wrong("keep", "a response goes out that does not say whether the connection is kept")
        raise Unsure("whether the connection is kept")
    if keep != ka:
        raise Wrong("keep", "a response says the opposite of what is done with the connection")
    if b != body:
        if body == Tok("nobody") or b == Tok("nobody"):
            raise Wrong("body", "a response goes out %s" % ("with a body it does not have" if body == Tok("nobody") else "without its body"))
        say(False, "body", "a response goes out with another body", b)
    if kind == "chunked":
        if te != YES:
            raise Wrong("chunked", "a response whose size is not known does not say that it goes out in chunks")
        if cl != "none":
            raise Wrong("chunked", "a response in chunks has a length")
        return
    if te == YES:
        raise Wrong("chunked", "a response that goes out whole says that it goes out in chunks")
    if c in ("101", "102", "204") and body == Tok("nobody"):
        if cl != "none" and kind == "null":
            raise Wrong("length", "a response with status %s, that cannot have a body, has a length" % c)
    elif cl != ("of", body):
        if cl in ("none", "given") or isinstance(cl, tuple) and cl[0] == "of":
            raise Wrong("length", "a response goes out without the length of its body")
        raise Unsure("the length of a response")


def respond(rep, prog, stream):
    fs = [f for f in fns(prog, "do_response") if STREAMS[stream] in f["params"][0]["t"]]
    if len(fs) != 1:
        raise AnalysisError("how %s is answered is not known" % stream)
    f = fs[0]
    n = 0
    for ka in (YES, NO):
        it = Sess(prog, rep)
        it.own_response = False
        for s, srv in built(it, prog, {}):
            s = s.copy()
            s.mem[STREAM] = Tok("stream")
            it.lty[STREAM] = unq(f["params"][0]["t"]).rstrip("& ")
            s.mem[RES] = Tok("res", "handler")
            it.lty[RES] = unq(f["params"][1]["t"]).rstrip("& ")
            ends, thrown = it.run(f, [Ref(STREAM), Ref(RES), ka], s, srv)
            if thrown:
                raise AnalysisError("an answer that throws")
            for x, v in ends:
                n += 1
                try:
                    answered(it, x, it.outcome(v, x), ka)
                except Wrong as w:
                    rep.violation("respond:" + w.args[0], f, None, w.args[1])
                except Unsure as u:
                    rep.undecided("respond " + stream, str(u))
        flush(rep, it, "respond")
    rep.analysed(f)
    rep.obligation("answers compared", n)


def answered(it, st, o, ka):
    tr = it.trace(st)
    r = Tok("res", "handler")
    asked = {x[1]: x[2] for x in tr if x[0] == "case"}
    size = V("bodysize", V("rbody", r))
    stat = V("rstatus", r)
    src = V("bodystream", V("rbody", r))
    other = [k for k in asked if k not in (size, stat)]
    for kind in [asked[size]] if size in asked else KINDS:
        for c in [asked[stat]] if stat in asked else list(STATUS):
            try:
                one_answer(it, outgoing(it, tr), o, ka, kind, c, src)
            except Wrong:
                if other:
                    raise Unsure("decided by %r" % (other[0],))
                raise


def one_answer(it, ev, o, ka, kind, c, src):
    none = Tok("nobody")
    ev = list(ev)
    body = none
    if kind == "sized":
        b = [x for x in ev if x[0] == "body"]
        if len(b) != 1 or ev[0] is not b[0]:
            raise Wrong("sized", "the body of a response is read %d times, or after it goes out" % len(b))
        say(b[0][1] == src, "sized", "something else than the body of a response is read", b[0][1])
        ev = ev[1:]
        if b[0][2] == "error":
            if ev:
                raise Wrong("sized", "a response goes out although its body could not be read")
            if o != ("error", ("io", "body", 0)):
                raise Wrong("sized", "the failure of the body of a response is not given (%r)" % (o,))
            return
        if b[0][2] == "ok":
            body = V("whole", src)
    elif any(x[0] == "body" for x in ev):
        raise Unsure("a body is read")
    if kind == "chunked":
        if [x[0] for x in ev] not in (["header"], ["header", "chunks"]):
            raise Wrong("chunked", "a response whose size is not known goes out as %s" % ", ".join(x[0] for x in ev))
        message(ev[0], c, ka, kind, none)
        if ev[0][-1] != "ok":
            if len(ev) > 1:
                raise Wrong("chunked", "the body goes out although the headers did not")
        elif len(ev) < 2:
            raise Wrong("chunked", "the headers of a response go out and its body does not")
        else:
            say(ev[1][1] == src, "chunked", "something else than the body of a response goes out", ev[1][1])
    else:
        if [x[0] for x in ev] != ["write"]:
            raise Wrong("whole", "a response that goes out whole goes out as %s" % (", ".join(x[0] for x in ev) or "nothing"))
        message(ev[0], c, ka, kind, body)
    want = ("ok",) if ev[-1][-1] == "ok" else ("error", ev[-1][-1])
    if o != want and not (want == ("ok",) and o[0] == "num"):
        raise Wrong("outcome", "an answer gives %r where its writing gave %r" % (o, want))


KNOWN |= {"rstatus", "rversion", "rheaders", "rbody", "to_version", "bodystream", "bodysize", "whole"}

GETTERS = {"max_listen_connections": ("set_max_listen_connections", None), "tls_handshake_timeout": ("set_tls_handshake_timeout", Lin(3 * 10 ** 9)),
           "request_timeout": ("set_request_timeout", Lin(5 * 10 ** 9)), "request_header_limit": ("set_request_header_limit", Lin(8192)),
           "request_body_limit": ("set_request_body_limit", Lin(1 << 20))}


def settings(rep, prog, way):
    """what a server says it was built with"""
    n = 0
    sets = {"default": {}, "values": SET, "none": UNSET}[way]
    for g, (setter, default) in GETTERS.items():
        fs = fns(prog, g)
        if len(fs) != 1:
            raise AnalysisError("%s is not known" % g)
        want = sets.get(setter, default) if way != "none" or setter in sets else default
        if way != "default" and setter not in sets or want is None and g == "max_listen_connections":
            continue
        for q in ("&", "&&") if setter in sets else ("&",):
            it = Sess(prog, rep)
            it.way = q
            for s, srv in built(it, prog, sets):
                for x, v in it.run(fs[0], [], s, srv)[0]:
                    n += 1
                    l = v.loc if isinstance(v, Ref) else None
                    if l is not None and it.vstate(l, x) is not None:
                        got = None if it.vstate(l, x) == "none" else it.number(Ref(l + (("val",),)), x)
                    else:
                        got = it.number(v, x)
                    if got != want:
                        rep.violation("built:" + g, fs[0], None, "%s() gives %r of a server built with %r (%s)" % (g, got, want, way))
            flush(rep, it, g)
        rep.analysed(fs[0])
    rep.obligation("settings compared", n)


PARTS = {}
for _s in STREAMS:
    PARTS["session:" + _s] = lambda rep, prog, s=_s: session(rep, prog, s)
    PARTS["respond:" + _s] = lambda rep, prog, s=_s: respond(rep, prog, s)
for _s in ("default", "values", "none"):
    PARTS["settings:" + _s] = lambda rep, prog, s=_s: settings(rep, prog, s)


def main(rep):
    prog = facts.load("server")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("courses", sum(n for k, n in rep.obl if "compared" in k), 20)


if __name__ == "__main__":
    report.run("C19", "abstract interpretation of a session over the contracts of the connection, the parser and the handlers",
               "every request is read within its limits, handled once, and answered once", main)
