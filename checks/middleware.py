"""C22: middlewares hand on the request they are given, with its body decoded."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import handlers  # noqa: E402
import report  # noqa: E402
from handlers import RQ, Hand, runs, status_of, tell  # noqa: E402
from message import MOVED, REQ, look, show, fill  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from session import Sess, V, begin  # noqa: E402
from strs import flush  # noqa: E402

CODINGS = ("deflate", "gzip", "brotli", "identity", "other")
UNDO = {"async_inflate_stream": "deflate", "async_gzip_inflate_stream": "gzip", "async_brotli_inflate_stream": "brotli"}
FAR = 1000                                  # the n-th comma of a header is at n * FAR: anything else done with it is not known
NPOS = (1 << 64) - 1


class Chain(Hand):
    """a header is a list of names, of unknown number and names; what decodes is a term on top of what it decodes"""

    lit = Sess.lit

    def __init__(self, prog, rep):
        Hand.__init__(self, prog, rep)
        self.snaps = []

    def term(self, v, st, e=None):
        return MOVED if self.held(v, st) == MOVED else Hand.term(self, v, st, e)    # may be copied, but is not what was asked for

    def commas(self, w):
        """(the header, how many of its names are left)"""
        return (w.k[2], w.k[3]) if isinstance(w, Tok) and w.k[:2] == ("v", "first") else None

    def names(self, w, st):
        if self.commas(w):
            return [(st,) + self.commas(w)]
        if isinstance(w, Tok) and w.k[:2] == ("v", "value"):
            return [(s, w, k) for s, k in self.case(st, V("names", w), (1, 2, 3))]
        raise AnalysisError("a list of unknown names: %r" % (w,))

    def undo_of(self, ty):
        return UNDO.get(sq(unq(ty or "").replace("const ", "")).split("<")[0].split("::")[-1])

    def msg(self, n, q, rec, b, ctor, fn, st, this, args, e):
        if n == "contains" and self.part(rec) == "headers" and len(args) == 1:
            return self.ask(st, V("has", self.term(Ref(this), st, e), self.term(args[0], st, e)))
        if n == "split_of" and this is None:
            w = self.term(args[0], st, e)
            at = self.lit(args[1], st)
            if at is not None and "," not in at:
                self.complain(e, "splits a list at %r, not at its commas" % at)
            if at != ",":
                raise AnalysisError("split at something else")
            out = []
            for s, t, k in self.names(w, st):
                l = self.tmp(unq(e["t"]))
                s = s.copy()
                s.mem[l] = Tok("vec")
                s.mem[l + (("n",),)] = Lin(k)
                self.lty[l + (("n",),)] = "unsigned long"
                for i in range(k):
                    x = l + (("i", Lin(i)),)
                    self.lty[x] = "std::basic_string_view<char, std::char_traits<char>>"
                    s.mem[x] = V("coding", t, i)
                out.append((s, Ref(l)))
            return out
        if n == "state" and self.part(rec) == "states" and this is not None:
            return [self.give(st, e["t"], V("state", self.term(Ref(this), st, e), unq(e.get("t", ""))))]
        if q == "std::reverse" and len(args) == 2 and all(isinstance(a, Ptr) for a in args):
            return self.reversed_(st, args)
        if q == "std::ranges::reverse" or q == "std::ranges::__reverse_fn" or b == "std::ranges::__reverse_fn":
            l = args[0].loc
            k = st.mem.get(l + (("n",),))
            if isinstance(k, Lin) and k.const:
                return self.reversed_(st, [Ptr(l, Lin(0)), Ptr(l, k)])
        if n == "cmp_eq_ci" and this is None:
            a, c = args
            if self.lit(a, st) is not None:
                a, c = c, a
            return self.coding(st, self.term(a, st, e), self.lit(c, st), False)
        if n in ("operator==", "operator!=") and len(args) + (this is not None) == 2:
            a, c = ([Ref(this)] if this is not None else []) + list(args)
            if self.lit(a, st) is not None:
                a, c = c, a
            w = self.held(a, st)
            if isinstance(w, Tok) and w.k[:2] == ("v", "coding") and self.lit(c, st) is not None:
                r = self.coding(st, w, self.lit(c, st), True)
                return r if n == "operator==" else [(x, FALSE if v == TRUE else TRUE) for x, v in r]
        if b == "std::basic_string_view" and this is not None and not ctor and (n in ("find_last_of", "rfind", "find", "find_first_of", "substr", "empty")):
            w = self.held(Ref(this), st)
            if self.commas(w) or isinstance(w, Tok) and w.k[:2] == ("v", "value"):
                return self.shorten(n, w, st, args, e)
            if isinstance(w, Tok) and w.k[:2] == ("v", "coding") and n == "empty":
                return self.ask(st, V("empty", w))
        d = self.undo_of(rec)
        if d and this is not None:
            if n.startswith("~"):
                return [(st, VOID)]
            if ctor and len(args) == 1:
                s = st.copy()
                w = self.term(args[0], s, e)
                if isinstance(args[0], Ref) and self.rvalue(e, 0) and args[0].loc != this:
                    s.mem[args[0].loc] = MOVED
                s.mem[this] = w if self.undo_of(self.argty(e, 0)) == d else V("undo", d, w)
                return [(s, Ref(this))]
        if self.part(rec) in ("connection", "path") and this is not None and not ctor and n != "operator=" and not n.startswith("~") and not args:
            return [self.give(st, e["t"], V("of", self.term(Ref(this), st, e), n))]
        if self.is_resp(rec) and this is not None and self.is_term(Ref(this), st) and not ctor and n in ("status", "version"):
            return [self.give(st, e["t"], V("of", self.term(Ref(this), st, e), n))]
        if n == "to_string" and this is None:
            return [self.give(st, e["t"], V("text"))]
        if "chrono" in q or "chrono" in rec:
            if n.startswith("~"):
                return [(st, VOID)]
            return self.hold(st, this, V("time")) if ctor else [self.give(st, e["t"], V("time"))]
        if n == "value_or" and this is not None and self.vstate(this, st) is not None:
            x = this + (("val",),)
            return [self.give(st, e["t"], self.term(Ref(x), st, e) if self.vstate(this, st) == "some" else V("text"))]
        if b == "__gnu_cxx::__normal_iterator" and not self.is_term(args[0] if ctor and args else Ref(this), st):
            return None if not ctor else Io_hook(self, fn, st, this, args, e)
        return Hand.msg(self, n, q, rec, b, ctor, fn, st, this, args, e)

    def reversed_(self, st, args):
        a, c = args
        if a.loc != c.loc or not (a.off.const and c.off.const):
            raise AnalysisError("two ends of different lists")
        s = st.copy()
        xs = [a.loc + (("i", Lin(i)),) for i in range(a.off.c, c.off.c)]
        for x, w in zip(xs, [st.mem[x] for x in reversed(xs)]):
            s.mem[x] = w
        return [(s, VOID)]

    def coding(self, st, w, text, exactly):
        if text is None or not (isinstance(w, Tok) and w.k[:2] == ("v", "coding")):
            raise AnalysisError("compared with something unknown")
        out = []
        for s, x in self.case(st, V("coding", w), CODINGS):
            if x == "other" and text.lower() not in CODINGS[:-1]:
                out += self.ask(s, V("also", w, text.lower()))
                continue
            if x != text.lower():
                out.append((s, FALSE))
            elif exactly:
                out += [(y, TRUE if z == text else FALSE) for y, z in self.case(s, V("spelled", w), (text.lower(), "otherwise"))]
            else:
                out.append((s, TRUE))
        return out

    def shorten(self, n, w, st, args, e):
        out = []
        for s, t, k in self.names(w, st):
            if n == "empty":
                c = [y[2] for y in self.trace(s) if y[0] == "case" and y[1] == V("coding", V("coding", t, 0))]
                out += [(s, FALSE)] if k > 1 or c and c[0] != "other" else self.ask(s, V("empty", V("coding", t, 0)))
            elif n == "substr":
                a, c = (list(args) + [Lin(NPOS)])[:2]
                if not (isinstance(a, Lin) and a.const and a.c == 0 and isinstance(c, Lin) and c.const):
                    raise AnalysisError("a part of a header")
                if c.c == NPOS or c.c == -1:
                    out.append(self.give(s, e["t"], w))
                elif c.c % FAR == 0 and 0 < c.c // FAR < k:
                    out.append(self.give(s, e["t"], V("first", t, c.c // FAR)))
                else:
                    raise AnalysisError("a part of a header")
            else:
                x = self.held(args[0], s)
                x = chr(x.c) if isinstance(x, Lin) and x.const else self.lit(args[0], s)
                if x != "," or len(args) > 1:
                    raise AnalysisError("something else is looked for")
                out.append((s, Lin(NPOS if k == 1 else (k - 1) * FAR if n in ("find_last_of", "rfind") else FAR)))
        return out

    def called(self, b, st, args, e):
        if not (len(args) == 1 and isinstance(args[0], Ref) and args[0].loc == RQ):
            raise AnalysisError("another request is handed on")
        i = len(self.snaps)
        self.snaps.append(st.copy())
        s = st.copy()
        self.log(s, "call", i)
        out = []
        for x in handlers.THROWN:
            f = s.copy()
            self.log(f, "threw", x)
            self.throw(f, Exc(x, e))
        return out + [self.give(s, self.a_type(e), V("reply"))]


def Io_hook(it, fn, st, this, args, e):
    from streams import Io
    return Io.hook_call(it, fn, st, this, args, e)


def requests(it, prog, n):
    """run a middleware on a request of unknown parts"""
    from handlers import made
    s, l, ty = made(it, prog, "make_" + n, St())
    f = [f for f in prog.fns.values() if f.get("n") == "operator()" and f.get("rec") and unq(f["rec"]) == ty and f.get("body") is not None
         and len(f["params"]) == 1]
    if len(f) != 1:
        raise AnalysisError("%s: %d functions" % (n, len(f)))
    rec = prog.rec_by_type["fitoria::web::request"]
    it.lty[RQ] = "fitoria::web::request"
    terms = {}
    fill(it, rec, RQ, s, terms)
    begin(it)
    vs, ex = it.run(f[0], [Ref(RQ)], s, l)
    return f[0], terms, [(x, v, None) for x, v in vs] + [(x, None, y) for x, y in ex]


def said(names):
    return "with the encodings %s" % ", ".join(names) if names else "with no encoding"


def after(rep, prog, n, judge):
    it = Chain(prog, rep)
    f, P, out = requests(it, prog, n)
    rep.analysed(f)
    if set(P) != set(REQ):
        raise AnalysisError("the parts of a request are not known")
    k = 0
    for s, v, x in out:
        k += 1
        judge(rep, prog, it, f, P, s, v, x)
    flush(rep, it, n)
    rep.obligation("ways %s goes compared" % n, k)


def handed(rep, prog, it, f, P, i, want, what):
    """the request as the next one finds it"""
    got = look(it, prog, "request", it.snaps[i], RQ, REQ)
    for p in REQ:
        t = want.get(p, P[p])
        tell(rep, got[p] == t, "hands:%s:%s" % (f["rec"].split("<")[0].split("::")[-1], p), f, "%s: the next one is given a request whose %s is %s, not %s" % (
            what, p, show(got[p]), show(t)), got[p])


def ends(rep, prog, it, f, s, v, x, what, calls):
    th = [y[1] for y in it.trace(s) if y[0] == "threw"]
    key = f["rec"].split("<")[0].split("::")[-1]
    if x is not None:
        if not th:
            rep.violation("throws:" + key, f, None, "%s: an exception leaves although nothing threw" % what)
        return
    if th:
        rep.violation("swallows:" + key, f, None, "%s: what the next one throws does not arrive" % what)
        return
    if v == VOID:
        rep.violation("ends:" + key, f, None, "%s: there is no response" % what)
        return
    w = status_of(it, prog, s, v)
    tell(rep, w == V("reply"), "answer:" + key, f, "%s: the response is not the one of the next" % what, w if isinstance(w, Tok) else None)


def logged(rep, prog, it, f, P, s, v, x):
    calls = [y for y in it.trace(s) if y[0] == "call"]
    what = "a logger"
    if len(calls) != 1:
        rep.violation("logger:calls", f, None, "a logger calls the next one %d times" % len(calls))
        return
    handed(rep, prog, it, f, P, calls[0][1], {}, what)
    ends(rep, prog, it, f, s, v, x, what, calls)


def decoded(rep, prog, it, f, P, s, v, x):
    ce = Lin(handlers.it_k(prog, "k_content_encoding"))
    tr = it.trace(s)
    asked = {y[1]: y[2] for y in tr if y[0] == "case"}
    calls = [y for y in tr if y[0] == "call"]
    H = P["headers"]
    t = V("value", H, ce)
    has = asked.get(V("has", H, ce))
    if has is None:
        raise AnalysisError("the encoding is not asked for")
    if any(y.k[1] == "empty" and asked[y] for y in asked):
        return                  # whether a list may have empty elements is not said
    odd = [y for y in asked if y.k[1] not in ("has", "names", "coding", "spelled", "also", "empty") or y.k[1] == "also" and asked[y]]
    k = asked.get(V("names", t), 0) if has else 0
    names = [asked.get(V("coding", V("coding", t, i))) for i in range(k)]
    what = "a request %s" % said([n or "any" for n in names])
    if len(calls) > 1:
        rep.violation("decompress:calls", f, None, "%s is handed on %d times" % (what, len(calls)))
        return
    if not calls:
        if x is not None:
            rep.violation("decompress:throws", f, None, "%s: an exception leaves although nothing threw" % what)
        elif "other" not in names:
            if odd:
                raise AnalysisError("something else is asked: %s" % show(odd[0]))
            rep.violation("decompress:refuses", f, None, "%s is not handed on" % what + (
                ", when it is spelled otherwise" if "otherwise" in asked.values() else ""))
        elif v == VOID:
            rep.violation("decompress:ends", f, None, "%s: there is no response" % what)
        else:
            w = status_of(it, prog, s, v)
            if not isinstance(w, dict):
                tell(rep, False, "decompress:status", f, "%s: the response is %s" % (what, show(w)), w)
                return
            z = w["status"]
            if not (isinstance(z, Lin) and z.const):
                raise AnalysisError("a status of unknown value")
            if not 400 <= z.c < 500:
                rep.violation("decompress:status", f, None, "%s: it is refused with the status %d" % (what, z.c))
        return
    if odd:
        raise AnalysisError("something else is asked: %s" % show(odd[0]))
    if "other" in names or None in names or has and not k:
        rep.violation("decompress:unknown", f, None, "%s is handed on%s" % (what, "" if "other" in names else ", whichever they are"))
        return
    b = P["body"]
    for n in reversed(names):
        b = b if n == "identity" else V("undo", n, b)
    want = {"body": b}
    if has:
        want["headers"] = V("erase", H, ce)
    handed(rep, prog, it, f, P, calls[0][1], want, what)
    ends(rep, prog, it, f, s, v, x, what, calls)


PARTS = {"decompress": lambda rep, prog: after(rep, prog, "decompress", decoded),
         "logger": lambda rep, prog: after(rep, prog, "logger", logged)}


def main(rep):
    prog = facts.load("middleware")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("things compared", sum(n for k_, n in rep.obl if "compared" in k_), 2)


if __name__ == "__main__":
    report.run("C22", "abstract interpretation of the middlewares around an unknown next one, on unknown requests and lists of encodings",
               "the next one is called once with the request, its body decoded by every encoding it names in reverse order", main)
