"""C20: requests and responses carry what they are built with."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from session import PTRS, Sess, V, begin, ops  # noqa: E402
from streams import SELF, Io  # noqa: E402
from strs import flush  # noqa: E402

MOVED = Tok("moved")
# what is carried, by its type
PARTS_OF = {"web::connect_info": "connection", "web::path_info": "path", "http::verb": "method", "boost::beast::http::verb": "method",
            "http::version": "version", "http::header_map": "headers", "web::query_map": "query",
            "web::any_async_readable_stream": "body", "web::state_storage": "states", "http::status_code": "status",
            "web::any_body": "body"}
OWNED = ("connection", "path", "headers", "query", "body", "states")        # are emptied when they are moved away
KEPT = ("boost::json::value", "drive::object", "drive::source", "web::async_readable_vector_stream", "std::variant",
        "std::vector<std::byte", "web::any_body::size_type")
TEXT = ("std::basic_string_view", "std::basic_string", "std::span", "std::vector")
KNOWN = {"part", "arg", "set", "insert", "erase", "clear", "null", "chunked", "sized", "size", "body", "nothing", "vs", "serialized",
         "json", "mime", "none", "nohdr", "state", "moved", "to", "noquery"}
MUTATORS = ("set", "insert", "erase", "clear", "merge")


class Msg(Io):
    """a part is a term; moving it away leaves nothing behind"""
    held, give, number, case, ask = Sess.held, Sess.give, Sess.number, Sess.case, Sess.ask

    def part(self, ty):
        t = sq(unq(ty).replace("const ", "").rstrip("& "))
        return PARTS_OF.get(t) or PARTS_OF.get("http::" + t.split("::")[-1] if "http::" in t else "")

    def term(self, v, st, e=None):
        w = self.held(v, st)
        if w == MOVED:
            self.complain(e, "uses something that was moved away")
        if isinstance(w, Tok) and w.k[:1] == ("at",):
            raise AnalysisError("something unknown at %r" % (w.k[1],))
        if not isinstance(w, (Tok, Lin, Str)):
            raise AnalysisError("something unknown: %r" % (w,))
        return w

    def take(self, st, this, a, e, i, owned=True):
        """copy or move a term to a place"""
        w = self.term(a, st, e)
        s = st.copy()
        if owned and isinstance(a, Ref) and a.loc != this and self.rvalue(e, i):
            s.mem[a.loc] = MOVED
        s.mem[this] = w
        return [(s, Ref(this))]

    def is_term(self, v, st):
        w = self.held(v, st)
        return isinstance(w, Tok) and w.k[:1] in (("v",), ("moved",))

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        t = unq(ty)
        if len(args) == 1 and isinstance(args[0], Ref) and not t.endswith("&") and self.is_term(args[0], st):
            s = st.copy()
            self.lty[loc] = t
            s.mem[loc] = self.term(args[0], st, e)
            if self.part(t) in OWNED and isinstance(e, dict) and self.rvalue(e, 0) and args[0].loc != loc:
                s.mem[args[0].loc] = MOVED
            return [s]
        return Io.make(self, ty, loc, args, atys, st, e, rvalue)

    def size_term(self, l, ty, st):
        """how long a body is said to be"""
        w = self.held(Ref(l), st)
        if isinstance(w, Tok) and w.k[:1] == ("v",):
            return w
        t = sq(unq(ty).replace("const ", "").rstrip("& "))
        if t.endswith("any_body::null"):
            return V("null")
        if t.endswith("any_body::chunked"):
            return V("chunked")
        if t.endswith("any_body::sized"):
            o = [x for k in st.mem for x in (k[:len(l) + 1],) if k[:len(l)] == l and len(k) > len(l) and k[len(l)][0] == "f"]
            if not o:
                raise AnalysisError("the size of a body is not known")
            o = o[0]
            w = self.held(Ref(o), st)
            if isinstance(w, Tok) and w.k[:1] == ("v",):
                return V("sized", w)
            v = self.vstate(o, st)
            if v == "none":
                return V("sized", V("none"))
            if v == "some":
                x = o + (("val",),)
                return V("sized", self.term(Ref(x), st))
        raise AnalysisError("the size of a body is not known: %s" % t)

    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n") or "", sq(fn.get("qn", "")), sq(unq(fn.get("rec") or ""))
        ctor = fn.get("dk") == "CXXConstructor"
        ea = (e or {}).get("args", [])
        if (e or {}).get("k") == "CXXOperatorCallExpr" and this is not None:
            ea = ea[1:]
        real = [a for i, a in enumerate(args) if i >= len(ea) or not ea[i] or ea[i].get("k") != "CXXDefaultArgExpr"]
        r = self.msg(n, q, rec, rec.split("<")[0], ctor, fn, st, this, real, e)
        return r if r is not None else Io.hook_call(self, fn, st, this, args, e)

    def msg(self, n, q, rec, b, ctor, fn, st, this, args, e):
        if b in PTRS and this is not None:
            return Sess.shared(self, n, ctor, st, this, args, e)
        if n == "make_shared" and this is None:
            T = targs(unq(e.get("t", "")))[0]
            k = sum(x[0] == "made" for x in self.trace(st))
            l = (("obj", k),)
            self.lty[l] = T
            s = st.copy()
            self.log(s, "made", k, T)
            out = []
            for x in self.make(T, l, list(args), [self.argty(e, i) for i in range(len(args))], s, e):
                for f in self.p.rec_by_type[T]["fields"] if not args and T in self.p.rec_by_type else ():
                    m, p = l + (("f", f["n"]),), self.part(f["t"])
                    if p and m not in x.mem:
                        x.mem[m] = self.fresh_part(p)
                out.append((x, Ptr(l)))
            return out
        if b == "web::any_body" and this is not None:
            if ctor and not args:
                return self.hold(st, this, V("body", V("null"), V("nothing")))
            if ctor and len(args) == 2:
                s = st.copy()
                z = self.size_term(args[0].loc, self.argty(e, 0), s)
                w = self.term(args[1], s, e)
                if self.rvalue(e, 1) and args[1].loc[0][0] != "t":
                    s.mem[args[1].loc] = MOVED
                s.mem[this] = V("body", z, w)
                return [(s, Ref(this))]
            w = self.held(Ref(this), st)
            if n in ("size", "stream") and isinstance(w, Tok) and w.k[:2] == ("v", "body"):
                return [self.give(st, e["t"], w.k[2 if n == "size" else 3])]
        if b == "std::variant" and this is not None and (n.startswith("~") or "any_body" in (self.argty(e, 0) or "") or
                                                        args and self.is_term(args[0], st)):
            if (ctor or n == "operator=") and len(args) == 1:
                s = st.copy()
                s.mem[this] = self.size_term(args[0].loc, self.argty(e, 0), s)
                return [(s, Ref(this))]
            if n.startswith("~"):
                return [(st, VOID)]
        p = self.part(rec)
        if b == "web::async_readable_vector_stream" and this is not None and (ctor or n == "operator="):
            if not args:
                return self.hold(st, this, V("nothing"))
            w = self.term(args[0], st, e)
            if ctor and not (isinstance(w, Tok) and w.k[:2] in (("v", "vs"), ("v", "nothing"))):
                return self.hold(st, this, V("vs", w))
            return self.take(st, this, args[0], e, 0)
        if this is not None and (p or rec.startswith(KEPT)):
            if n.startswith("~"):
                return [(st, VOID)]
            if (ctor or n == "operator=") and len(args) == 1:
                return self.take(st, this, args[0], e, 0, p in OWNED or p is None)
            if ctor and not args:
                return self.hold(st, this, self.fresh_part(p) if p else V("none"))
            w = self.term(Ref(this), st, e)
            if n in MUTATORS and p in ("headers", "query"):
                a = [self.term(x, st, e) for x in args]
                s = st.copy()
                for i, x in enumerate(args):
                    if self.rvalue(e, i) and isinstance(x, Ref) and x.loc in s.mem and x.loc[0][0] != "t":
                        s.mem[x.loc] = MOVED
                s.mem[this] = V(n, w, *a)
                return [(s, VOID if unq(e.get("t", "")) == "void" else Tok("opq", "answer"))]
            if n in ("contains", "empty") and p in ("headers", "query"):
                return self.ask(st, V(n, w, *[self.term(x, st, e) for x in args]))
            if n.startswith("state") and p == "states":
                return [self.give(st, e["t"], V("state", w, unq(e.get("t", ""))))]
        if n == "serialize" and this is None:
            return [self.give(st, e["t"], V("serialized", self.term(args[0], st, e)))]
        if n == "value_from" and this is None:
            return [self.give(st, e["t"], V("json", self.term(args[0], st, e)))]
        if q.startswith("mime::") and this is None and not args:
            return [self.give(st, e["t"], V("mime", n))]
        if rec.startswith("mime::mime_view") and this is not None:
            return [self.give(st, e["t"], self.term(Ref(this), st, e))]
        if n in ("as_bytes", "string_view", "as_writable_bytes") and this is None and len(args) == 1:
            return [self.give(st, e["t"], self.term(args[0], st, e))]
        if b.startswith(TEXT) or n in ("begin", "end", "data", "size") and this is None and len(args) == 1:
            return self.text(n, ctor, st, this, args, e)
        if b == "__gnu_cxx::__normal_iterator" and this is not None:
            if ctor and len(args) == 1 or n == "base":
                w = self.term(args[0] if ctor else Ref(this), st, e)
                return self.hold(st, this, w) if ctor else [(st, w)]
        return None

    def fresh_part(self, p):
        return V("body", V("null"), V("nothing")) if p == "body" else V("no" + p)

    def hold(self, st, this, term):
        s = st.copy()
        s.mem[this] = term
        return [(s, Ref(this))]

    def text(self, n, ctor, st, this, args, e):
        if this is None:
            this, args = args[0].loc, args[1:]
        if n.startswith("~"):
            return [(st, VOID)]
        if not any(self.is_term(x, st) for x in list(args) + ([] if ctor else [Ref(this)])):
            return None
        if ctor or n == "operator=":
            if len(args) == 1:
                ow = "basic_string<" in (self.argty(e, 0) or "") or "vector<" in (self.argty(e, 0) or "")
                return self.take(st, this, args[0], e, 0, ow)
            a, c = (self.term(x, st, e) for x in args[:2])
            if isinstance(a, Tok) and isinstance(c, Tok) and a.k[:2] in (("v", "begin"), ("v", "data")) and c == V(
                    "end" if a.k[1] == "begin" else "size", a.k[2]):
                return self.hold(st, this, a.k[2])
            if isinstance(a, Tok) and a.k[:2] in (("v", "begin"), ("v", "data")) and c == V("size", a.k[2]):
                return self.hold(st, this, a.k[2])
            raise AnalysisError("a text made of %r and %r" % (a, c))
        w = self.term(Ref(this), st, e)
        if n in ("begin", "cbegin", "data", "c_str"):
            return self.scalar(st, e, V("data" if n in ("data", "c_str") else "begin", w))
        if n in ("end", "cend"):
            return self.scalar(st, e, V("end", w))
        if n in ("size", "length", "size_bytes"):
            return self.scalar(st, e, V("size", w))
        if n.startswith("operator "):
            return [self.give(st, e["t"], w)]
        if n == "empty":
            return self.ask(st, V("empty", w))
        raise AnalysisError("%s() of a text" % n)

    def scalar(self, st, e, t):
        ty = unq(e.get("t", ""))
        return [self.give(st, ty, t)] if self.is_class(ty.rstrip("& ")) else [(st, t)]


def plain(t, facts_):
    """a term, given what was asked on the way"""
    if not (isinstance(t, Tok) and t.k[:1] == ("v",)):
        return t
    if t.k[1] == "size" and facts_.get(V("empty", t.k[2])):
        return Lin(0)
    if t.k[1] == "vs" and facts_.get(V("empty", t.k[2])):
        return V("nothing")
    t = Tok("v", t.k[1], *[plain(x, facts_) for x in t.k[2:]])
    if t.k[1] in ("set", "insert") and len(t.k) == 5:
        old = t.k[2]
        inner = isinstance(old, Tok) and old.k[:1] == ("v",)
        if inner and old.k[1] == "erase" and old.k[3:] == t.k[3:4] or facts_.get(V("contains", old, t.k[3])) is False:
            return V("set", old.k[2] if inner and old.k[1] == "erase" and old.k[3:] == t.k[3:4] else old, *t.k[3:])
        if t.k[1] == "set" and inner and old.k[1] == "set" and old.k[3] == t.k[3]:
            return V("set", old.k[2], *t.k[3:])
    if t.k[1] == "erase" and facts_.get(V("contains", *t.k[2:])) is False:
        return t.k[2]
    return t


# ---------------------------------------------------------------- objects
def classes(prog, n):
    return [r for r in prog.rec_by_type.values() if sq(unq(r.get("t", r.get("qn", "")))) == "web::" + n]


def fill(it, rec, loc, st, terms):
    """give every part of an object its term, wherever it is kept"""
    for f in rec["fields"]:
        l = loc + (("f", f["n"]),)
        it.lty[l] = unq(f["t"])
        p = it.part(f["t"])
        if p:
            if p in terms:
                raise AnalysisError("two parts of one kind")
            st.mem[l] = terms[p] = V("part", p)
        elif unq(f["t"]) in it.p.rec_by_type and sq(unq(f["t"])).startswith("web::"):
            fill(it, it.p.rec_by_type[unq(f["t"])], l, st, terms)
        else:
            raise AnalysisError("a part of unknown kind: %s" % f["t"])


def start(it, prog, cls, names):
    rec = prog.rec_by_type.get("fitoria::web::" + cls)
    if rec is None:
        raise AnalysisError("%s is not a class" % cls)
    st, terms = St(), {}
    it.lty[SELF] = "fitoria::web::" + cls
    fill(it, rec, SELF, st, terms)
    if set(terms) != set(names):
        raise AnalysisError("the parts of %s are not known" % cls)
    return st, terms


REQ = ("connection", "path", "method", "version", "headers", "query", "body", "states")
RES = ("status", "version", "headers", "body")


def methods(prog, cls, n, np=None):
    return [f for f in prog.fns.values() if f.get("n") == n and f.get("body") is not None and sq(unq(f.get("rec") or "")) == "web::" + cls
            and (np is None or len(f["params"]) == np)]


def only(fs, what):
    if len(fs) != 1:
        raise AnalysisError("%s: %d functions" % (what, len(fs)))
    return fs[0]


def call(it, f, args, st, this):
    begin(it)
    vs, ex = it.run(f, args, st, this)
    if ex:
        raise AnalysisError("%s may throw" % f["n"])
    return vs


def look(it, prog, cls, s, loc, names):
    """what an object says of its parts: {name: term}"""
    out = {}
    for p in names:
        if p == "states":
            f = only([f for f in methods(prog, cls, "state", 0)], "state")
        else:
            f = methods(prog, cls, p, 0)
            f = sorted(f, key=lambda x: "const" not in x["ret"])[0] if len(f) == 2 else only(f, p)
        vs = call(it, f, [], s, loc)
        if len(vs) != 1:
            raise AnalysisError("%s() has several outcomes" % p)
        w = it.held(vs[0][1], vs[0][0])
        if p == "states" and isinstance(w, Tok) and w.k[:2] == ("v", "state"):
            w = w.k[2]
        out[p] = w
    return out


def say(rep, ok, key, f, text, *terms):
    if ok:
        return
    for t in terms:
        if not isinstance(t, Lin) and not (isinstance(t, Tok) and (t in (MOVED, Tok("opt", "none")) or t.k[:1] == ("v",) and all(o in KNOWN for o in ops(t)))):
            raise AnalysisError("%s: %r" % (text, t))
    rep.violation(key, f, None, text)


def show(t):
    if isinstance(t, Tok) and t.k[:1] == ("v",):
        return "%s(%s)" % (t.k[1], ", ".join(show(x) for x in t.k[2:])) if t.k[2:] else t.k[1]
    return "(moved away)" if t == MOVED else str(t)


def compare(rep, it, f, key, what, got, want, st=None):
    fx = {x[1]: x[2] for x in it.trace(st) if x[0] == "case"} if st is not None else {}
    got, want = {p: plain(t, fx) for p, t in got.items()}, {p: plain(t, fx) for p, t in want.items()}
    for p in want:
        say(rep, got[p] == want[p], "%s:%s" % (key, p), f, "%s: the %s is %s, not %s" % (what, p, show(got[p]), show(want[p])), got[p])
    for f2, line, msg in it.bad:
        rep.violation("%s:%s" % (key, msg), f2, line, "%s: %s %s" % (what, f2.get("sqn", ""), msg))
    it.bad = []


def arg(it, st, ty, name):
    t = unq(ty)
    p = it.part(t)
    if not it.is_class(t.replace("const ", "").rstrip("& ")):
        return V("arg", name)
    l = (("ext", "arg:" + name),)
    it.lty[l] = t.replace("const ", "").rstrip("& ")
    st.mem[l] = V("arg", name)
    return Ref(l)


def sig(f):
    return "%s(%s)%s" % (f["n"], ", ".join(sq(unq(p["t"])).split("<")[0].replace("std::basic_string_view", "text").replace(
        "std::basic_string", "text") for p in f["params"]), " " + f["refq"] if f.get("refq") else "")


# ---------------------------------------------------------------- the parts of the check
SETTERS = {
    "set_method": ("method", lambda P, a: a[0]), "set_status": ("status", lambda P, a: a[0]), "set_version": ("version", lambda P, a: a[0]),
    "set_header": ("headers", lambda P, a: V("set", P, *a)), "insert_header": ("headers", lambda P, a: V("insert", P, *a)),
    "set_query": ("query", lambda P, a: V("set", P, *a)),
}


def setters(rep, prog, cls, names):
    n = 0
    out = cls.replace("_builder", "")
    for name, (part, make) in SETTERS.items():
        if part not in names:
            continue
        for f in methods(prog, cls, name):
            it = Msg(prog, rep)
            st, P = start(it, prog, cls, names)
            begin(it)
            args = [arg(it, st, p["t"], "a%d" % i) for i, p in enumerate(f["params"])]
            what = "%s::%s" % (cls, sig(f))
            for s, v in call(it, f, args, st, SELF):
                n += 1
                if not (isinstance(v, Ref) and v.loc == SELF):
                    rep.violation("same:" + name, f, None, "%s does not return the builder itself" % what)
                    continue
                want = dict(P)
                want[part] = make(P[part], [V("arg", "a%d" % i) for i in range(len(args))])
                for s2, v2 in call(it, only(methods(prog, cls, "build", 0), "build"), [], s, SELF):
                    compare(rep, it, f, "set:" + name, what + " and build()", look(it, prog, out, s2, v2.loc, names), want, s2)
            rep.analysed(f)
    rep.obligation("setters of %s compared" % cls, n)


def bodies(rep, prog, cls, names):
    n = 0
    out = cls.replace("_builder", "")
    req = out == "request"
    for name in ("set_body", "set_json", "set_stream_body", "build"):
        for f in methods(prog, cls, name):
            it = Msg(prog, rep)
            st, P = start(it, prog, cls, names)
            begin(it)
            args = [arg(it, st, p["t"], "a%d" % i) for i, p in enumerate(f["params"])]
            what = "%s::%s" % (cls, sig(f))
            A = V("arg", "a0")
            want, alt = dict(P), None
            t = sq(unq(f["params"][0]["t"])) if f["params"] else ""
            if name == "set_json":
                want["headers"] = V("set", P["headers"], Lin(k(prog, "k_content_type")), V("mime", "application_json"))
                j = V("serialized", A if t.replace("const ", "").startswith("boost::json::value") else V("json", A))
                want["body"] = V("vs", j) if req else V("body", V("sized", V("size", j)), V("vs", j))
            elif name == "build":
                pass
            elif not args:
                want["body"] = V("nothing") if req else V("body", V("null"), V("nothing"))
            elif "drive::source" in t:
                want["body"] = A if req else V("body", V("chunked") if name == "set_stream_body" else V("sized", V("none")), A)
            elif t.startswith(("std::span", "std::basic_string_view")):
                want["body"] = V("vs", A) if req else V("body", V("sized", V("size", A)), V("vs", A))
                m = targs(unq(f["params"][0]["t"]))
                if not req and t.startswith("std::span") and len(m) > 1 and m[1].strip().isdigit() and len(m[1].strip()) < 9:
                    alt = V("body", V("sized", Lin(int(m[1]))), V("vs", A))
            else:
                continue
            for s, v in call(it, f, args, st, SELF):
                n += 1
                got = look(it, prog, out, s, v.loc, names)
                if alt is not None and got["body"] == alt:
                    want["body"] = alt
                compare(rep, it, f, "give:" + name, what, got, want, s)
                src = s.mem.get(args[0].loc) if args and isinstance(args[0], Ref) else None
                if "drive::source &" == t and src == MOVED:
                    rep.violation("moves:" + name, f, None, "%s takes away a source that is not given to it" % what)
            rep.analysed(f)
    rep.obligation("bodies of %s compared" % cls, n)


def again(rep, prog, cls, names):
    """from an object to its builder and back"""
    n = 0
    it = Msg(prog, rep)
    if cls == "request":
        st, P = start(it, prog, cls, names)
        begin(it)
        starts = [(st, SELF)]
    else:
        st, P = start(it, prog, cls + "_builder", names)
        begin(it)
        starts = [(s, v.loc) for s, v in call(it, only(methods(prog, cls + "_builder", "build", 0), "build"), [], st, SELF)]
    f = only(methods(prog, cls, "builder", 0), "builder")
    for s, l in starts:
        compare(rep, it, f, "look", cls, look(it, prog, cls, s, l, names), P)
        for s2, v in call(it, f, [], s, l):
            for s3, v3 in call(it, only(methods(prog, cls + "_builder", "build", 0), "build"), [], s2, v.loc):
                n += 1
                compare(rep, it, f, "again", "%s::builder() and build()" % cls, look(it, prog, cls, s3, v3.loc, names), P)
    rep.analysed(f)
    for m in ("headers", "query") if cls == "request" else ():
        it = Msg(prog, rep)
        st, P = start(it, prog, cls + "_builder", names)
        begin(it)
        g = only(methods(prog, cls + "_builder", m, 0), m)
        for s, v in call(it, g, [], st, SELF):
            n += 1
            say(rep, it.held(v, s) == P[m], "own:" + m, g, "%s() of a builder gives %s" % (m, show(it.held(v, s))), it.held(v, s))
            if not isinstance(v, Ref):
                raise AnalysisError("%s() of a builder is not a reference" % m)
            s = s.copy()
            s.mem[v.loc] = V("to", P[m])
            want = dict(P)
            want[m] = V("to", P[m])
            for s2, v2 in call(it, only(methods(prog, cls + "_builder", "build", 0), "build"), [], s, SELF):
                compare(rep, it, g, "own:" + m, "what is changed through %s()" % m, look(it, prog, cls, s2, v2.loc, names), want)
        rep.analysed(g)
    if cls == "request":
        g = sorted(methods(prog, cls, "body", 0), key=lambda x: "const" in x["ret"])
        if len(g) == 2:
            it = Msg(prog, rep)
            st, P = start(it, prog, cls, names)
            begin(it)
            for s, v in call(it, g[0], [], st, SELF):
                n += 1
                say(rep, it.held(v, s) == P["body"], "body", g[0], "body() gives %s" % show(it.held(v, s)), it.held(v, s))
    rep.obligation("%s taken apart and put together" % cls, n)


def k(prog, name):
    f = only([f for f in prog.fns.values() if f.get("n") == name and f.get("body") is not None], name)
    it = Io(prog)
    begin(it)
    v = it.run(f, [], St())[0][0][1]
    if not (isinstance(v, Lin) and v.const):
        raise AnalysisError("%s is not known" % name)
    return v.c


def factories(rep, prog):
    n = 0
    fresh = {"version": Lin(k(prog, "k_v1_1")), "headers": V("noheaders"), "body": V("body", V("null"), V("nothing"))}
    for f in sorted((f for f in prog.fns.values() if f.get("n", "").startswith("s_") and f.get("body") is not None), key=lambda f: f["n"]):
        name = f["n"][2:]
        for g in methods(prog, "response", name, 0):
            it = Msg(prog, rep)
            want = dict(fresh, status=Lin(k(prog, f["n"])))
            for s, v in call(it, g, [], St(), None):
                for s2, v2 in call(it, only(methods(prog, "response_builder", "build", 0), "build"), [], s, v.loc):
                    n += 1
                    compare(rep, it, g, name, "response::%s()" % name, look(it, prog, "response", s2, v2.loc, RES), want)
            rep.analysed(g)
    it = Msg(prog, rep)
    g = only([f for f in prog.fns.values() if sq(f["qn"]) == "web::response::response" and not f["params"] and f.get("body") is not None],
             "response()")
    begin(it)
    e = {"k": "CXXConstructExpr", "t": g["rec"], "cls": g["rec"], "args": [], "l": g["l"]}
    for s, _ in it.call_body(g, SELF, [], St(), e, True):
        n += 1
        compare(rep, it, g, "default", "response()", look(it, prog, "response", s, SELF, RES), dict(fresh, status=Lin(k(prog, "s_ok"))))
    rep.analysed(g)
    rep.obligation("responses of a status compared", n)
    rep.require("responses of a status compared", n, 20)


PARTS = {
    "request:set": lambda rep, prog: setters(rep, prog, "request_builder", REQ),
    "request:give": lambda rep, prog: bodies(rep, prog, "request_builder", REQ),
    "request:again": lambda rep, prog: again(rep, prog, "request", REQ),
    "response:set": lambda rep, prog: setters(rep, prog, "response_builder", RES),
    "response:give": lambda rep, prog: bodies(rep, prog, "response_builder", RES),
    "response:again": lambda rep, prog: again(rep, prog, "response", RES),
    "response:status": factories,
}
KNOWN |= {"no" + p for p in OWNED}


def main(rep):
    prog = facts.load("message")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("things compared", sum(n for k_, n in rep.obl if "compared" in k_), 20)


if __name__ == "__main__":
    report.run("C20", "abstract interpretation of the builders over parts that are terms and can be moved away once",
               "an object has every part it is built with", main)
