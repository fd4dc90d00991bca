"""C09: media types."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
import strs  # noqa: E402
from hdr import boolean, depend, field_of, member, Tags  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from strs import flush, state_of  # noqa: E402

MV, NV, PV = "mime::mime_view", "mime::name_view", "mime::params_view"
ALNUM = frozenset(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
NAME = ALNUM | frozenset(b"!#$&-^_")


def name_ok(it, st, v):
    """(states where v is a name, states where it is not)"""
    if isinstance(v, Str):
        b = bset(v.s)
        ok = v.s and ord(v.s[0]) in ALNUM and b <= NAME
        return ([st], []) if ok else ([], [st])
    bad, first = empty(it, st, v)
    good = []
    for s in first:
        t, f = all_in(it, s, V(v.root, v.lo, v.lo + 1), ALNUM)
        bad += f
        for x in t:
            t2, f2 = all_in(it, x, V(v.root, v.lo + 1, v.hi), NAME)
            good += t2
            bad += f2
    return good, bad


def both(it, st, vs):
    """(states where every text is a name, states where one is not)"""
    good, bad = [st], []
    for v in vs:
        nxt = []
        for s in good:
            t, f = name_ok(it, s, v)
            nxt += t
            bad += f
        good = nxt
    return good, bad


def primary(it, st, p):
    """(state, None | (type, subtype, suffix or None)) for the trimmed text p"""
    out = []
    for s, ps, done in split(it, st, p, frozenset(b"/"), 3):
        if len(ps) != 2 or not done:
            out.append((s, None))
            continue
        for s2, qs, done2 in split(it, s, ps[1], frozenset(b"+"), 3):
            if len(qs) > 2 or not done2:
                out.append((s2, None))
                continue
            t, f = both(it, s2, [ps[0]] + qs)
            out += [(x, None) for x in f]
            out += [(x, (ps[0], qs[0], qs[1] if len(qs) > 1 else None)) for x in t]
    return out


def param(it, st, p):
    out = []
    for s, ps, done in split(it, st, p, frozenset(b"="), 3):
        if len(ps) != 2 or not done:
            out.append((s, None))
            continue
        t, f = both(it, s, ps)
        out += [(x, None) for x in f] + [(x, (ps[0], ps[1])) for x in t]
    return out


class Params(Tags):
    name = "mime_view"

    def sink(self, st, vec, k, el, e):
        p = self.current(st)
        self.cnt = getattr(self, "cnt", 0) + 1
        out = []
        kept = st.mem.get(el + (("keep",),))
        for s, want in param(self, st, p):
            if want is None:
                self.say(e, "param-accept", "takes a parameter that is malformed")
            elif kept == TRUE:
                self.say(e, "param-order", "keeps the first value of a repeated parameter instead of the last one")
            elif not all(same_view(self, s, self.as_text(Ref(el + (("f", n),)), s), w) for n, w in zip(("first", "second"), want)):
                self.say(e, "param", "stores a parameter that is not the one in the text")
            else:
                out.append(s)
        return out


def text_of(it, s, v):
    return it.as_text(v, s)


def parts_ok(it, prog, s, loc, want):
    """accessors of the media type at loc give these texts (suffix None: there is none) -> name of a wrong one"""
    for n, w in want.items():
        for s2, v in member(it, prog, s, MV + "::" + n, loc):
            if n == "suffix":
                k = state_of(it, s2, v)
                if (w is None) != (k == "none"):
                    return n
                if w is None:
                    continue
                v = Ref(v.loc + (("val",),))
            if not same_view(it, s2, text_of(it, s2, v), w):
                return n
    return None


def the_map(it, prog, s, loc):
    for s2, v in member(it, prog, s, MV + "::params", loc):
        ms = [k for k, t in s2.mem.items() if k[:len(v.loc)] == v.loc and isinstance(t, Tok) and t.k == ("maplog",)]
        if len(ms) != 1:
            raise facts.AnalysisError("the parameters' storage is not recognised")
        return ms[0]


def parse(rep, prog):
    for f in fns(prog, MV + "::parse", 1):
        it = Params(prog, rep)
        st = St()
        a = it.text("text", st)
        res, thr = it.run(f, [a], st)
        rep.analysed(f)
        bad = lambda k, m: rep.violation("mime:" + k, f, None, "mime_view::parse " + m)
        for s0, v in res:
            k = state_of(it, s0, v)
            for s1, p, rest in piece(it, s0, a, frozenset(b";")):
                for s2, w in trim(it, s1, p):
                    for s, want in primary(it, s2, w):
                        rep.obligation("mime outcomes compared")
                        if want is None:
                            if k == "some":
                                bad("accept", "accepts a text whose type/subtype part is malformed")
                            continue
                        on = rest is not None and it.on_list(s, rest, frozenset(b";"))
                        if k == "none":
                            if rest is None:
                                bad("reject", "rejects a well-formed media type without parameters")
                            elif not on:
                                bad("reject", "rejects a media type without going through its parameters")
                            else:
                                for c in it.current_cases(s):
                                    if c is None or any(x for _, x in param(it, *c)):
                                        bad("reject", "rejects a media type whose parameters are well formed")
                            continue
                        loc = v.loc + (("val",),)
                        n = parts_ok(it, prog, s, loc, {"source": a, "essence": w, "type": want[0], "subtype": want[1],
                                                        "suffix": want[2]})
                        if n:
                            bad(n, "does not give the %s that is in the text" % n)
                        m = the_map(it, prog, s, loc)
                        if rest is None:
                            if not it.same(s, s.mem[m + (("n",),)], Lin(0)):
                                bad("params", "invents parameters")
                        elif not on or not it.whole_list(s, m):
                            bad("params", "can return without having taken every parameter of the text")
        rep.obligation("parameters compared", getattr(it, "cnt", 0))
        if thr:
            rep.violation("mime:throw", f, None, "mime_view::parse may throw")
        flush(rep, it, "mime_view::parse")


# ---------------------------------------------------------------- the predefined types
EXT = {"js": "application/javascript", "json": "application/json", "swf": "application/x-shockwave-flash",
       "wasm": "application/wasm", "xml": "application/xml", "bmp": "image/bmp", "gif": "image/gif", "jpe": "image/jpeg",
       "jpeg": "image/jpeg", "jpg": "image/jpeg", "png": "image/png", "svg": "image/svg+xml", "svgz": "image/svg+xml",
       "tif": "image/tiff", "tiff": "image/tiff", "css": "text/css", "htm": "text/html", "html": "text/html",
       "php": "text/html", "txt": "text/plain", "flv": "video/x-flv"}


def dissect(s):
    e = s
    t, _, r = e.partition("/")
    sub, plus, suf = r.partition("+")
    return {"source": Str(s), "essence": Str(e), "type": Str(t), "subtype": Str(sub), "suffix": Str(suf) if plus else None}


def constants(rep, prog):
    n = 0
    for f in prog.fns.values():
        if not (f.get("body") and not f["params"] and unq(f.get("ret", "")).endswith("mime::mime_view") and
                f["sqn"].startswith("mime::") and f.get("kind") not in ("ctor", "dtor")):
            continue
        it = Objs(prog, rep)
        res, thr = it.run(f, [], St())
        rep.analysed(f)
        n += 1
        want = f["n"].replace("_", "").replace("-", "")
        for s, v in res:
            for s2, src in member(it, prog, s, MV + "::source", v.loc):
                t = text_of(it, s2, src)
                rep.obligation("predefined types compared")
                if not isinstance(t, Str):
                    raise facts.AnalysisError("%s: the source text is not a literal" % f["n"])
                w = parts_ok(it, prog, s2, v.loc, dissect(t.s))
                if w:
                    rep.violation("mime:const:%s:%s" % (f["n"], w), f, None, "%s() is %r, but its %s() is not that text's" % (f["n"], t.s, w))
        if thr:
            rep.violation("mime:const:%s" % f["n"], f, None, "%s() throws" % f["n"])
        flush(rep, it, f["n"])
    rep.require("predefined media types", n, 20)


def is_ext(it, s, v, x):
    """v is x up to ASCII case: True / False / None"""
    if isinstance(v, Str):
        return v.s.lower() == x
    if it.same(s, v.n, Lin(len(x))):
        r = []
        for i, c in enumerate(x):
            d = it.dom_at(v.root, v.lo + i, s)
            w = frozenset(ord(z) for z in (c, c.upper()))
            if not d & w:
                return False
            r.append(d <= w)
        return True if all(r) else None
    t = it.assume_le(s, v.n - len(x))
    t = t and it.assume_le(t, Lin(len(x)) - v.n)
    return None if t else False


def judge_ext(it, rep, prog, f, s, v, x):
    """the answer for extension text x"""
    k = state_of(it, s, v)
    rep.obligation("extensions compared")
    if k == "some":
        loc = v.loc + (("val",),)
        for s2, src in member(it, prog, s, MV + "::source", loc):
            t = text_of(it, s2, src)
            for e, w in EXT.items():
                if is_ext(it, s2, x, e) is True and isinstance(t, Str) and t.s == w:
                    break
            else:
                rep.violation("mime:extension:%s" % (t.s if isinstance(t, Str) else "?"), f, None, "gives %s for an extension that "
                              "is not its own" % (t.s if isinstance(t, Str) else "a type"))
    else:
        for e in EXT:
            if is_ext(it, s, x, e) is True:
                rep.violation("mime:extension:none:%s" % e, f, None, "does not know the extension %s" % e)


def extensions(rep, prog):
    for f in fns(prog, MV + "::from_extension", 1):
        for c in [None] + [y for x in EXT for y in (x, x.upper(), x[:1].upper() + x[1:])] + ["", "j", "jso", "jsonx", "txt ", ".js"]:
            it = Objs(prog, rep)
            st = St()
            a = it.text("ext", st) if c is None else Str(c)
            res, thr = it.run(f, [a], st)
            for s, v in res:
                judge_ext(it, rep, prog, f, s, v, a)
            if thr:
                rep.violation("mime:extension:throw", f, None, "from_extension may throw")
            flush(rep, it, "from_extension")
        rep.analysed(f)


def from_path(rep, prog):
    for f in fns(prog, MV + "::from_path", 1):
        it = Objs(prog, rep)
        st = St()
        a = it.text("path", st)
        res, thr = it.run(f, [a], st)
        rep.analysed(f)
        for s0, v in res:
            for s, p in it.find_model(s0, a, frozenset(b"."), back=True):
                rep.obligation("paths compared")
                if p == Lin(NPOS):
                    if state_of(it, s, v) != "none":
                        rep.violation("mime:path", f, None, "from_path gives a type for a path without extension")
                    continue
                x = V(a.root, a.lo + p + 1, a.hi)
                judge_ext(it, rep, prog, f, s, v, x)
        flush(rep, it, "from_path")
    # every known extension, after a directory with a dot in it
        for e in EXT:
            it = Objs(prog, rep)
            res, thr = it.run(f, [Str("a.png/b.%s" % e)], St())
            for s, v in res:
                judge_ext(it, rep, prog, f, s, v, Str(e))
            flush(rep, it, "from_path")


# ---------------------------------------------------------------- names
def wrap(it, st, v, p):
    """an argument of the parameter's type holding the text v"""
    ty = unq(p["t"]).rstrip("& ")
    b = it.base(ty)
    if b in TXT or ty.replace("const ", "") == "char *":
        return v
    loc = it.tmp(ty)
    cell = it.tmp("std::basic_string_view<char>")
    it.put(cell, v, st)
    if b.endswith(NV):
        put_name(it, loc, v, st)
        return Ref(loc)
    if b.endswith(MV):
        f = field_named(it.p, MV, "source")
        put_name(it, loc + (("f", f),), v, st)
        return Ref(loc)
    raise facts.AnalysisError("a comparison with %s" % ty)


def put_name(it, loc, v, st):
    it.put(loc + (("f", field_of(it.p, NV, lambda t: "string_view" in t)),), v, st)


def field_named(prog, cls, accessor):
    """the field an accessor returns"""
    f = fns(prog, cls + "::" + accessor, 0)[0]
    it = Objs(prog)
    it.run_setup()
    loc = it.tmp("fitoria::" + cls)
    st = St()
    rec = prog.rec_by_type.get("fitoria::" + cls)
    cells = {}
    for x in rec["fields"]:
        if it.base(x["t"]).endswith(NV):
            cells[x["n"]] = it.text(x["n"], st)
            put_name(it, loc + (("f", x["n"]),), cells[x["n"]], st)
    for s, v in it.call_body(f, loc, [], st, {"k": "CXXMemberCallExpr", "t": f["ret"], "args": [], "l": f["l"]}):
        t = it.as_text(v, s)
        for n, c in cells.items():
            if t == c:
                return n
    raise facts.AnalysisError("%s::%s: storage not recognised" % (cls, accessor))


def compare(rep, prog):
    n = 0
    for op, ev in (("operator==", strs.eq_ci), ("operator!=", strs.eq_ci), ("operator<=>", strs.tw_ci)):
        for cls in (NV, MV):
            fs = [f for f in prog.fns.values() if f["n"] == op and f.get("body") and len(f["params"]) == 2 and
                  any(unq(p["t"]).rstrip("& ") == "fitoria::" + cls for p in f["params"])]
            for f in fs:
                n += 1
                nm = "%s %s" % (cls, op)
                if ev is strs.eq_ci:
                    ev(rep, prog, [f], nm, wrap, op == "operator!=")
                else:
                    ev(rep, prog, [f], nm, wrap)
    rep.require("comparison operators", n, 4)


def lowered(rep, prog):
    for f in fns(prog, NV + "::to_string", 0):
        it = Objs(prog, rep)
        st = St()
        it.run_setup()
        a = it.text("name", st)
        loc = it.tmp("fitoria::" + NV)
        put_name(it, loc, a, st)
        rep.analysed(f)
        for s, v in it.call_body(f, loc, [], st, {"k": "CXXMemberCallExpr", "t": f["ret"], "args": [], "l": f["l"]}):
            t = it.as_text(v, s)
            rep.obligation("lower-cased names compared")
            ok = isinstance(t, V) and it.same(s, t.n, a.n) and root_base(t.root)[0] == root_base(a.root)[0] and \
                it.same(s, t.lo, a.lo) and all(x & 255 == strs.LOWER[i] for i, x in enumerate(root_base(t.root)[1]))
            if not ok:
                rep.violation("mime:to_string", f, None, "name_view::to_string is not the text in lower case")
        flush(rep, it, "name_view::to_string")


def converted(rep, prog):
    n = 0
    for f in prog.fns.values():
        if f.get("kind") == "conv" and f.get("body") and unq(f.get("rec", "")) in ("fitoria::" + NV, "fitoria::" + MV) and \
                "string_view" in f["ret"]:
            it = Objs(prog, rep)
            st = St()
            it.run_setup()
            a = it.text("name", st)
            loc = wrap(it, st, a, {"t": unq(f["rec"])}).loc
            rep.analysed(f)
            n += 1
            for s, v in it.call_body(f, loc, [], st, {"k": "CXXMemberCallExpr", "t": f["ret"], "args": [], "l": f["l"]}):
                rep.obligation("conversions compared")
                if not same_view(it, s, it.as_text(v, s), a):
                    rep.violation("mime:convert", f, None, "%s converts to a text that is not its own" % f["rec"])
            flush(rep, it, "conversion to text")
    rep.require("conversions to text", n, 2)


PARTS = {"conversions": converted, "parse": parse, "constants": constants, "extensions": extensions, "from_path": from_path, "names": compare,
         "to_string": lowered, "split_of": depend, "cmp_eq_ci": strs.eq_ci, "cmp_tw_ci": strs.tw_ci}


def main(rep):
    prog = facts.load("core")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("outcomes", sum(n for k, n in rep.obl if "compared" in k), 20)


if __name__ == "__main__":
    report.run("C09", "abstract interpretation over character sequences",
               "for every text: a media type is accepted exactly when it follows the grammar, with exactly the parts and parameters in "
               "it; names compare without regard to case; predefined types and extensions are consistent", main)
