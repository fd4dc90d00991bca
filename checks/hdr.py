#!/usr/bin/env python3
"""Header values: entity tags and If-None-Match (C07), byte ranges (C08)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import facts  # noqa: E402
import report  # noqa: E402
from spec import *  # noqa: E402,F403
from objs import Objs  # noqa: E402
import strs  # noqa: E402
from strs import flush, state_of  # noqa: E402

ETAGC = frozenset([0x21] + list(range(0x23, 0x7f)) + list(range(0x80, 256)))
ET = "http::header::entity_tag"
INM = "http::header::if_none_match"
RG = "http::header::range"


def etag_spec(it, st, v):
    """(state, None | (strong, content)) for the text v read as an entity tag"""
    out = []
    if isinstance(v, Str):
        raise facts.AnalysisError("entity tag of a literal")
    weak, strong = it.prefix_cases(st, v, "W/")
    for s, flag, b in [(s, False, V(v.root, v.lo + 2, v.hi)) for s in weak] + [(s, True, v) for s in strong]:
        short = it.assume_le(s, b.n - 1)
        if short is not None:
            out.append((short, None))
        s = it.assume_le(s, Lin(2) - b.n)
        if s is None:
            continue
        t, f = it.prefix_cases(s, b, '"')
        out += [(x, None) for x in f]
        for x in t:
            t2, f2 = it.prefix_cases(x, b, '"', True)
            out += [(y, None) for y in f2]
            for y in t2:
                c = V(b.root, b.lo + 1, b.hi - 1)
                t3, f3 = all_in(it, y, c, ETAGC)
                out += [(z, None) for z in f3] + [(z, (flag, c)) for z in t3]
    return out


def member(it, prog, st, qn, this, args=(), np=None):
    """call a member function of the analysed tree from state st"""
    f = fns(prog, qn, np if np is not None else len(args))
    if not f:
        raise facts.AnalysisError("%s is gone" % qn)
    e = {"k": "CXXMemberCallExpr", "t": f[0]["ret"], "args": [], "l": f[0]["l"]}
    it.tc.append([])
    it.rets.append([])
    r = it.call_body(f[0], this, list(args), st, e)
    it.rets.pop()
    if it.tc.pop():
        raise facts.AnalysisError("%s may throw" % qn)
    return r


def boolean(it, s, v):
    """[(state, bool)]"""
    if isinstance(v, Ref):
        v = it.load(v.loc, "bool", s)
    t, f = it.branch(s, it.to_bool(v, s))
    return [(x, True) for x in t] + [(x, False) for x in f]


def is_tag(it, prog, st, loc, want):
    """does the entity tag at loc carry exactly `want` = (strong, content)?"""
    for s, v in member(it, prog, st, ET + "::strong", loc):
        for s2, b in boolean(it, s, v):
            if b != want[0]:
                return False
            for s3, w in member(it, prog, s2, ET + "::value", loc):
                if not same_view(it, s3, it.as_text(w, s3), want[1]):
                    return False
    return True


def etag_parse(rep, prog):
    for f in fns(prog, ET + "::parse", 1):
        it = Objs(prog, rep)
        st = St()
        a = it.text("header", st)
        res, thr = it.run(f, [a], st)
        rep.analysed(f)
        for s, v in res:
            k = state_of(it, s, v)
            for s2, want in etag_spec(it, s, a):
                rep.obligation("entity tag outcomes compared")
                if (want is not None) != (k == "some"):
                    rep.violation("etag:%s" % ("accept" if k == "some" else "reject"), f, None, "entity_tag::parse %s a text that is "
                                  "%san entity tag" % ("accepts" if k == "some" else "rejects", "not " if k == "some" else ""))
                elif want and not is_tag(it, prog, s2, v.loc + (("val",),), want):
                    rep.violation("etag:content", f, None, "entity_tag::parse does not give the strength and the characters "
                                  "between the quotes")
        if thr:
            rep.violation("etag:throw", f, None, "entity_tag::parse may throw")
        flush(rep, it, "entity_tag::parse")


def new_tag(it, prog, s, loc, strong, text):
    """a tag built by its public constructor"""
    rec = next(t for t in prog.rec_by_type if t == "fitoria::" + ET)
    cell = it.tmp("std::basic_string<char>")
    it.put(cell, text, s)
    r = it.make(rec, loc, [TRUE if strong else FALSE, Ref(cell)], ["bool", "std::basic_string<char>"], s, {"l": 0}, ())
    if len(r) != 1:
        raise facts.AnalysisError("the entity tag's constructor branches")
    return r[0]


def etag_ops(rep, prog):
    f = fns(prog, ET + "::to_string", 0)
    for g in f:
        for strong in (True, False):
            it = Objs(prog, rep)
            s = St()
            val = it.text("value", s)
            loc = it.tmp("fitoria::" + ET)
            it.frames, it.tc, it.rets = [], [[]], [[]]
            it.run_setup()
            s = new_tag(it, prog, s, loc, strong, val)
            for s2, v in member(it, prog, s, ET + "::to_string", loc):
                rep.obligation("entity tag texts compared")
                w = it.as_text(v, s2)
                if w != cat(Str('"' if strong else 'W/"'), val, Str('"')):
                    rep.violation("etag:to_string", g, None, "an entity tag is not written as %s\"value\"" % ("" if strong else "W/"))
            rep.analysed(g)
    if not f:
        raise facts.AnalysisError("entity_tag::to_string is gone")
    # comparison
    for qn, strict in ((ET + "::weakly_equal_to", False), ("http::header::operator==", True)):
        gs = fns(prog, qn) if not strict else [g for g in prog.fns.values() if g["n"] == "operator==" and
                                                 len(g["params"]) == 2 and all("entity_tag" in p["t"] for p in g["params"])
                                                 and g.get("body")]
        if not gs:
            raise facts.AnalysisError("%s is gone" % qn)
        for g in gs[:1]:
            for s1 in (True, False):
                for s2 in (True, False):
                    it = Objs(prog, rep)
                    st = St()
                    it.run_setup()
                    x, y = it.text("lhs", st), it.text("rhs", st)
                    l, r = it.tmp("fitoria::" + ET), it.tmp("fitoria::" + ET)
                    st = new_tag(it, prog, new_tag(it, prog, st, l, s1, x), r, s2, y)
                    e = {"k": "CallExpr", "t": "bool", "args": [], "l": g["l"]}
                    res = it.call_body(g, l, [Ref(r)], st, e) if not strict else it.call_body(g, None, [Ref(l), Ref(r)], st, e)
                    for s, v in res:
                        for s3, b in boolean(it, s, v):
                            for s4, eq in it.text_eq(x, y, s3):
                                want = eq == TRUE or eq is TRUE
                                want = want and (s1 == s2 or not strict)
                                rep.obligation("entity tag comparisons compared")
                                if b != want:
                                    rep.violation("etag:%s" % qn.rpartition("::")[2], g, None, "%s comparison answers %s for %s "
                                                  "values and %s strength" % ("strong" if strict else "weak", b, "equal" if eq == TRUE
                                                                             else "different", "equal" if s1 == s2 else "different"))
            rep.analysed(g)


def fresh_tag(prog, rep, strong):
    it = Objs(prog, rep)
    st = St()
    it.run_setup()
    x, y = it.text("value", st), it.text("new", st)
    loc = it.tmp("fitoria::" + ET)
    st = new_tag(it, prog, st, loc, strong, x)
    cell = it.tmp("std::basic_string<char>")
    it.put(cell, y, st)
    return it, st, x, y, loc, cell


def etag_make(rep, prog):
    """makers and setters leave the strength and the value they are named for"""
    for n, what in (("make_strong", True), ("make_weak", False)):
        for g in fns(prog, ET + "::" + n, 1):
            it, st, x, y, loc, cell = fresh_tag(prog, rep, True)
            for s, v in it.call_body(g, None, [Ref(cell)], st, {"k": "CallExpr", "t": g["ret"], "args": [], "l": g["l"]}):
                rep.obligation("entity tag makers compared")
                if not is_tag(it, prog, s, v.loc, (what, y)):
                    rep.violation("etag:" + n, g, None, "%s does not make a %s tag with the given value" % (n, n[5:]))
            rep.analysed(g)
    for n in ("set_strong", "set_value"):
        for g in fns(prog, ET + "::" + n, 1):
            for old in (True, False):
                for new in (True, False):
                    it, st, x, y, loc, cell = fresh_tag(prog, rep, old)
                    arg = (TRUE if new else FALSE) if n == "set_strong" else Ref(cell)
                    for s, v in it.call_body(g, loc, [arg], st, {"k": "CallExpr", "t": g["ret"], "args": [], "l": g["l"]}):
                        rep.obligation("entity tag setters compared")
                        want = (new, x) if n == "set_strong" else (old, y)
                        if not isinstance(v, Ref) or v.loc != loc or not is_tag(it, prog, s, loc, want):
                            rep.violation("etag:" + n, g, None, "%s does not change exactly the part it is named for" % n)
            rep.analysed(g)


def iterators(rep, prog, cls, field, el):
    """begin/end (and their const forms) span exactly the stored elements"""
    for n, at in (("begin", 0), ("cbegin", 0), ("end", 2), ("cend", 2)):
        for g in fns(prog, cls + "::" + n, 0):
            it = Objs(prog, rep)
            st = St()
            it.run_setup()
            loc = it.tmp("fitoria::" + cls)
            vec = loc + (("f", field),)
            st.mem[vec] = Tok("vec")
            st.mem[vec + (("n",),)] = Lin(2)
            for s, v in it.call_body(g, loc, [], st, {"k": "CallExpr", "t": g["ret"], "args": [], "l": g["l"]}):
                if isinstance(v, Ref):
                    v = it.load(v.loc, "char*", s)
                rep.obligation("iterators compared")
                if not (isinstance(v, Ptr) and v.loc == vec and v.off == Lin(at)):
                    rep.violation("%s:%s" % (cls, n), g, None, "%s() is not the %s of the stored elements" % (n, "start" if not at else "end"))
            rep.analysed(g)


def field_of(prog, cls, pred):
    rec = prog.rec_by_type.get("fitoria::" + cls)
    fs = [f for f in rec["fields"] if pred(f["t"])]
    if len(fs) != 1:
        raise facts.AnalysisError("%s: storage not recognised" % cls)
    return fs[0]["n"]


class Tags(Objs):
    """the loop over the pieces of the header"""
    deferred = True

    def stale(self, st, vec, e):
        self.say(e, "content", "changes a member that was stored for an earlier piece")

    def sink(self, st, vec, k, el, e):
        if k.const and self.GP not in st.mem:
            raise facts.AnalysisError("tags are collected outside a loop over the pieces")
        p = self.current(st)
        self.cnt = getattr(self, "cnt", 0) + 1
        out = []
        for s, want in etag_spec(self, st, p):
            if want is None:
                self.say(e, "accept", "takes a piece that is not an entity tag")
            elif not is_tag(self, self.p, s, el, want):
                self.say(e, "content", "stores a tag that is not the one in the header")
            else:
                out.append(s)
        return out

    def say(self, e, key, msg):
        if not getattr(self, "quiet", 0):
            self.rep.violation(self.name + ":" + key, self.frames[1].fn, (e or {}).get("l"), "%s::parse %s" % (self.name, msg))


def inm_parse(rep, prog):
    for f in fns(prog, INM + "::parse", 1):
        it = Tags(prog, rep)
        it.name = "if_none_match"
        st = St()
        a = it.text("header", st)
        res, thr = it.run(f, [a], st)
        rep.analysed(f)
        for s0, v in res:
            k = state_of(it, s0, v)
            for s, w in trim(it, s0, a):
                stars, no = ([s], []) if w == Str("*") else it.cases_eq(s, w, "*") if isinstance(w, V) else ([], [s])
                for x in stars:
                    rep.obligation("if_none_match outcomes compared")
                    if k != "some":
                        rep.violation("inm:star", f, None, "if_none_match::parse rejects '*'")
                        continue
                    for y, b in [z for q, r in member(it, prog, x, INM + "::is_any", v.loc + (("val",),)) for z in boolean(it, q, r)]:
                        if not b:
                            rep.violation("inm:any", f, None, "'*' is not reported as matching anything")
                for x in no:
                    rep.obligation("if_none_match outcomes compared")
                    lst_outcome(it, rep, prog, f, x, v, k, w)
        rep.obligation("tags compared", getattr(it, "cnt", 0))
        if thr:
            rep.violation("inm:throw", f, None, "if_none_match::parse may throw")
        flush(rep, it, "if_none_match::parse")


def lst_outcome(it, rep, prog, f, s, v, k, w):
    """a header that is a list of tags"""
    if not it.on_list(s, w, frozenset(b",")):
        rep.violation("inm:list", f, None, "if_none_match::parse decides without going through the comma-separated pieces")
        return
    if k == "some":
        for q, r in member(it, prog, s, INM + "::etags", v.loc + (("val",),)):
            if not isinstance(r, Ref) or not it.whole_list(q, r.loc):
                rep.violation("inm:incomplete", f, None, "if_none_match::parse can return without having taken every piece")
            for y, b in [z for q2, r2 in member(it, prog, q, INM + "::is_any", v.loc + (("val",),)) for z in boolean(it, q2, r2)]:
                if b and it.feasible(y):
                    rep.violation("inm:any", f, None, "a list of tags is reported as matching anything")
        return
    for p in it.current_cases(s):
        if p is None:
            rep.violation("inm:reject", f, None, "if_none_match::parse rejects a list although every piece was acceptable")
            continue
        x, piece_ = p
        for y, want in etag_spec(it, x, piece_):
            if want is not None:
                rep.violation("inm:reject", f, None, "if_none_match::parse rejects a header because of a piece that is an entity tag")


def inm_iter(rep, prog):
    iterators(rep, prog, INM, field_of(prog, INM, lambda t: "vector" in t), ET)


PARTS = {"entity_tag makers": etag_make, "if_none_match iterators": inm_iter, "entity_tag::parse": etag_parse, "entity_tag": etag_ops, "if_none_match": inm_parse}


def depend(rep, prog):
    """the summaries of trim and split_of used above are only as good as those functions"""
    strs.trims(rep, prog, ("trim",))
    strs.splits(rep, prog)


PARTS["split_of"] = depend


def main_etag(rep):
    prog = facts.load("core")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("outcomes", sum(n for k, n in rep.obl if "compared" in k), 20)


# ---------------------------------------------------------------- Range
U64 = "unsigned long"


def number(it, st, v):
    """(state, value or None): v read as one unsigned 64-bit decimal number"""
    if isinstance(v, Str):
        if not v.s:
            return [(st, None)]
        raise facts.AnalysisError("a number in a literal")
    for k in st.facts:
        if isinstance(k, tuple) and k[0] in ("parsed", "range", "nonum") and k[1] == v.root and it.same(st, k[2], v.lo) and len(k) == 5:
            if k[4] != U64:
                raise facts.AnalysisError("a number read as %s" % k[4])
            if k[0] == "nonum":
                return [(st, None)]
            if k[0] == "range":
                return [(st, None)]
            if it.same(st, k[3], v.hi):
                return [(st, sym(("num",) + k[1:]))]
            t, f = it.branch(st, it.cmp_lin("<=", k[3] - v.hi + 1))
            if t and not f:
                return [(st, None)]
            raise facts.AnalysisError("a number that ends elsewhere")
    t, f = empty(it, st, v)
    out = [(s, None) for s in t]
    for s in f:
        out.append((s, None))
        n = it.fresh("anynum", U64)
        out.append((s.copy(), sym(n)))
    return out


def le(it, st, a, b):
    """(states with a <= b, states with a > b)"""
    t = it.assume_le(st, a - b)
    f = it.assume_le(st, b - a + 1)
    return [t] if t else [], [f] if f else []


def one_range(it, st, p, total):
    """(state, None | (offset, length)) for a sub-range start-end / start-"""
    out = []
    for s, ps, done in split(it, st, p, frozenset(b"-"), 3):
        if len(ps) != 2 or not done:
            out.append((s, None))
            continue
        for s2, start in number(it, s, ps[0]):
            if start is None:
                out.append((s2, None))
                continue
            em, ne = empty(it, s2, ps[1])
            for x in em:
                t, f = le(it, x, start + 1, total)
                out += [(y, None) for y in f] + [(y, (start, total - start)) for y in t]
            for x in ne:
                for y, end in number(it, x, ps[1]):
                    if end is None:
                        out.append((y, None))
                        continue
                    t, f = le(it, y, start, end)
                    out += [(z, None) for z in f]
                    for z in t:
                        t2, f2 = le(it, z, end + 1, total)
                        out += [(q, None) for q in f2] + [(q, (start, end - start + 1)) for q in t2]
    return out


def element(it, st, loc, want):
    return all(isinstance(it.load(loc + (("f", n),), U64, st), Lin) and
               it.same(st, it.load(loc + (("f", n),), U64, st), w) for n, w in zip(("offset", "length"), want))


class Ranges(Tags):
    def sink(self, st, vec, k, el, e):
        if self.GP not in st.mem:
            if not k.const:
                raise facts.AnalysisError("sub-ranges are collected outside a loop over the pieces")
            return [st]
        p = self.current(st)
        self.cnt = getattr(self, "cnt", 0) + 1
        out = []
        for s, want in one_range(self, st, p, self.total):
            if want is None:
                self.say(e, "accept", "takes a sub-range that is malformed or outside the representation")
            elif not element(self, s, el, want):
                self.say(e, "content", "stores a sub-range that is not the one asked for")
            else:
                out.append(s)
        return out


def range_parse(rep, prog):
    for f in fns(prog, RG + "::parse", 2):
        it = Ranges(prog, rep)
        it.name = "range"
        st = St()
        a = it.text("header", st)
        it.symty[("total",)] = U64
        it.total = sym(("total",))
        res, thr = it.run(f, [a, it.total], st)
        rep.analysed(f)
        for s0, v in res:
            k = state_of(it, s0, v)
            for s, ps, done in split(it, s0, a, frozenset(b"="), 3):
                rep.obligation("range outcomes compared")
                if len(ps) != 2 or not done:
                    if k == "some":
                        rep.violation("range:unit", f, None, "range::parse accepts a header that is not unit=ranges")
                    continue
                u, r = ps
                if isinstance(r, Str):
                    suf, lst = ([s], []) if r.s.startswith("-") else ([], [s])
                else:
                    suf, lst = it.prefix_cases(s, r, "-")
                for x in suf:
                    suffix(it, rep, prog, f, x, v, k, u, V(r.root, r.lo + 1, r.hi))
                for x in lst:
                    sublist(it, rep, prog, f, x, v, k, u, r)
        rep.obligation("sub-ranges compared", getattr(it, "cnt", 0))
        if thr:
            rep.violation("range:throw", f, None, "range::parse may throw")
        flush(rep, it, "range::parse")


def right_unit(it, rep, prog, f, s, v, u):
    for q, w in member(it, prog, s, RG + "::unit", v.loc + (("val",),)):
        if not same_view(it, q, it.as_text(w, q), u):
            rep.violation("range:unit-text", f, None, "the unit is not the text before '='")


def storage(it, prog, s, v):
    out = []
    for q, r in member(it, prog, s, RG + "::begin", v.loc + (("val",),)):
        p = it.load(r.loc, "char*", q) if isinstance(r, Ref) else r
        if not isinstance(p, Ptr):
            raise facts.AnalysisError("sub-range storage not recognised")
        out.append((q, p.loc))
    return out


def suffix(it, rep, prog, f, s, v, k, u, body):
    for x, n in number(it, s, body):
        if n is None:
            if k == "some":
                rep.violation("range:suffix-accept", f, None, "range::parse accepts a malformed suffix range")
            continue
        bad = le(it, x, n, Lin(0))[0] + [z for y in le(it, x, n, Lin(0))[1] for z in le(it, y, it.total, Lin(0))[0]]
        if bad and k == "some":
            rep.violation("range:suffix-empty", f, None, "range::parse accepts a suffix range that selects nothing")
        for y in [z for y in le(it, x, n, Lin(0))[1] for z in le(it, y, it.total, Lin(0))[1]]:
            if k != "some":
                rep.violation("range:suffix-reject", f, None, "range::parse rejects a suffix range that selects something")
                continue
            right_unit(it, rep, prog, f, y, v, u)
            t, g = le(it, y, n, it.total)
            for z, want in [(z, (it.total - n, n)) for z in t] + [(z, (Lin(0), it.total)) for z in g]:
                for q, vec in storage(it, prog, z, v):
                    if q.mem.get(vec + (("n",),)) != Lin(1) or not element(it, q, vec + (("i", Lin(0)),), want):
                        rep.violation("range:suffix", f, None, "range::parse does not select the last bytes a suffix range asks for")


def sublist(it, rep, prog, f, s, v, k, u, r):
    if isinstance(r, Str) or not it.on_list(s, r, frozenset(b",")):
        rep.violation("range:list", f, None, "range::parse decides without going through the comma-separated sub-ranges")
        return
    if k == "some":
        right_unit(it, rep, prog, f, s, v, u)
        for q, vec in storage(it, prog, s, v):
            if not it.whole_list(q, vec):
                rep.violation("range:incomplete", f, None, "range::parse can return without having taken every sub-range")
        return
    for p in it.current_cases(s):
        if p is None:
            rep.violation("range:reject", f, None, "range::parse rejects a list although every sub-range was acceptable")
            continue
        for y, want in one_range(it, p[0], p[1], it.total):
            if want is not None:
                rep.violation("range:reject", f, None, "range::parse rejects a header because of a sub-range that is acceptable")


def range_access(rep, prog):
    fld = field_of(prog, RG, lambda t: "vector" in t)
    iterators(rep, prog, RG, fld, RG)
    for n, np in (("size", 0), ("at", 1), ("operator[]", 1)):
        gs = fns(prog, RG + "::" + n, np)
        if not gs:
            raise facts.AnalysisError("range::%s is gone" % n)
        for g in gs:
            it = Objs(prog, rep)
            st = St()
            it.run_setup()
            loc = it.tmp("fitoria::" + RG)
            vec = loc + (("f", fld),)
            st.mem[vec] = Tok("vec")
            it.symty[("cnt",)] = it.symty[("idx",)] = U64
            st.mem[vec + (("n",),)] = sym(("cnt",))
            st.cons = st.cons + (sym(("cnt",)) - BIG, sym(("idx",)) - sym(("cnt",)) + 1)
            for s, v in it.call_body(g, loc, [sym(("idx",))][:np], st, {"k": "CallExpr", "t": g["ret"], "args": [], "l": g["l"]}):
                if isinstance(v, Ref) and n == "size":
                    v = it.load(v.loc, U64, s)
                rep.obligation("accessors compared")
                ok = v == sym(("cnt",)) if n == "size" else isinstance(v, Ref) and v.loc == vec + (("i", sym(("idx",))),)
                if not ok:
                    rep.violation("range:" + n, g, None, "range::%s does not give the stored %s" % (n, "count" if n == "size" else "element"))
            rep.analysed(g)
            flush(rep, it, "range::" + n)


RPARTS = {"range::parse": range_parse, "range accessors": range_access, "split_of": depend,
          "from_string": lambda r, p: strs.conversions(r, p, "unsigned long")}


def main_range(rep):
    prog = facts.load("core")
    rep.soft = True
    report.parallel(rep, lambda r, j: RPARTS[j](r, prog), list(RPARTS))
    rep.require("outcomes", sum(n for k, n in rep.obl if "compared" in k), 20)


if __name__ == "__main__":
    if sys.argv[1] == "etag":
        report.run("C07", "abstract interpretation over character sequences",
                   "for every header text: accepted exactly when it follows the grammar, with exactly the tags it contains in order; "
                   "tags are written, compared strongly and compared weakly as defined", main_etag)
    else:
        report.run("C08", "abstract interpretation over character sequences",
                   "for every header text and representation length: accepted exactly when every sub-range is well formed, non-empty "
                   "and inside the representation, and then exactly those sub-ranges in order; no wrap-around", main_range)
