"""C13: the containers that map names to values (parameters, query, path, header fields)."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from absint import Out  # noqa: E402
from log import One  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from strs import flush  # noqa: E402

PLACE = (("ext", "self"),)
EXT = ("std::out_of_range", "std::exception")


class Keyed(One):
    """A container is described by what it holds under one name (K, the one asked for) and an opaque rest.

    mem[l] = ("kmap", rest, n): n values are held under K, the i-th at l.kv(i); rest is unchanged unless named otherwise.
    """
    multi = False

    def e_MemberExpr(self, e, st):
        out = []
        for s, v in One.e_MemberExpr(self, e, st):
            if isinstance(v, Ref) and v.loc and v.loc[-1] in (("f", "first"), ("f", "second")):
                v = Ref(v.loc[:-1] + (("get", int(v.loc[-1][1] == "second")),))
            out.append((s, v))
        return out

    # ---- the entry
    def entry(self, m, i=0):
        return m + (("entry", i),)

    def kv(self, m, i=0):
        return self.entry(m, i) + (("get", 1),)

    def content(self, v, st):
        while isinstance(v, Ref) and isinstance(st.mem.get(v.loc), Ref):
            v = st.mem[v.loc]
        return self.as_text(v, st) if isinstance(v, Ref) else v

    def is_key(self, v, st):
        k = self.name
        if v == k:
            return True
        c = self.content(v, st)
        if isinstance(k, (V, Str)):
            return isinstance(c, (V, Str)) and same_view(self, st, c, k)
        return c == k or (isinstance(v, Ref) and st.mem.get(v.loc) == k)

    def state(self, st, m):
        t = st.mem.get(m)
        if not (isinstance(t, Tok) and t.k[0] == "kmap"):
            raise AnalysisError("a container of unknown contents")
        return t.k[1], t.k[2]

    def known(self, st, m):
        t = st.mem.get(m)
        return isinstance(t, Tok) and t.k[:1] == ("kmap",)

    def put_entry(self, st, m, i, args, atys, e):
        s = st.copy()
        rest, n = self.state(s, m)
        s.mem[m] = Tok("kmap", rest, n + 1)
        l = self.kv(m, i)
        if self.vtype is None:
            s.mem[l] = self.content(args[0], s)
            return [s]
        return self.make(self.vtype, l, args, atys, s, e)

    def le0(self, x):
        return self.cmp_lin("<=", x)

    def total(self, st, m):
        rest, n = self.state(st, m)
        return Lin(n) + (self.size if rest == "rest" else Lin(0))

    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n"), fn.get("qn", ""), sq(unq(fn.get("rec", "")))
        if n == "basic_string_view" and "boost::" in q and this is not None and args:
            c = self.content(args[0], st)
            if isinstance(c, (V, Str)):
                s = st.copy()
                s.mem[this] = c
                return [(s, Ref(this))]
        if n in ("operator basic_string_view", "operator std::basic_string_view") and "boost::" in q and this is not None:
            return [(st, self.content(Ref(this), st))]
        if "fields::value_type" in rec and this is not None and n in ("value", "name_string", "name"):
            if n == "value" and this[:-1] + (("entry", 0),) == this:
                return [(st, self.content(Ref(this + (("get", 1),)), st))]
        if this is not None and not args and "iterator" in (n or "") and n in rec and "fitoria" not in q:
            s = st.copy()
            s.mem[this] = Tok("kit", None, "null")
            return [(s, Ref(this))]
        # iterators
        its = [a for a in ([Ref(this)] if this is not None else []) + list(args)]
        its = [st.mem.get(a.loc) if isinstance(a, Ref) else a for a in its]
        its = [a for a in its if isinstance(a, Tok) and a.k[:1] == ("kit",)]
        if its:
            r = self.kit_op(n, its, fn, st, this, args, e)
            if r is not None:
                return r
        if this is not None and self.known(st, this) or n in ("basic_fields", "map", "unordered_map"):
            r = self.kmap_op(n, fn, st, this, args, e)
            if r is not None:
                return r
        return One.hook_call(self, fn, st, this, args, e)

    def kit_op(self, n, its, fn, st, this, args, e):
        i = its[0]
        if n in ("operator==", "operator!=") and len(its) == 2:
            a, b = [x.k[2] for x in its]
            if its[0].k[1] != its[1].k[1]:
                self.complain(e, "compares positions of different containers")
                return []
            if a == b:
                eq = TRUE
            elif "begin" in (a, b) and "end" in (a, b):
                return self.decide(st, self.le0(self.total(st, i.k[1]))) if n == "operator==" else \
                    [(s, FALSE if v == TRUE else TRUE) for s, v in self.decide(st, self.le0(self.total(st, i.k[1])))]
            elif "begin" in (a, b):
                return None
            else:
                eq = FALSE
            return [(st, eq if n == "operator==" else TRUE if eq == FALSE else FALSE)]
        if n in ("operator->", "operator*") and len(its) == 1:
            if i.k[2] == "end":
                self.complain(e, "reads the entry past the end")
                return []
            if i.k[2] == "begin":
                return None
            l = self.entry(i.k[1], 0) if i.k[2] == "key" else i.k[1] + (("other",),)
            return [(st, Ptr(l) if n == "operator->" else Ref(l))]
        if "iterator" in sq(unq(fn.get("rec", ""))).lower() and len(args) == 1 and this is not None:
            s = st.copy()
            s.mem[this] = i
            return [(s, Ref(this))]
        if "iterator" in sq(unq(fn.get("rec", ""))).lower() and n.startswith("~"):
            return [(st, VOID)]
        if n == "distance" and len(its) == 2:
            if its[0].k[2] == "begin" and its[1].k[2] == "end":
                return [(st, self.total(st, i.k[1]))]
            if its[0] == its[1]:
                return [(st, Lin(0))]
        if n == "value" and len(its) == 0:
            return None
        return None

    def kmap_op(self, n, fn, st, this, args, e):
        rec = sq(unq(fn.get("rec", "")))
        if n in ("basic_fields", "map", "unordered_map"):
            if this is None or fn.get("rec") is None:
                return None
            if len(args) == 1 and isinstance(args[0], Ref) and self.known(st, args[0].loc):
                s = st.copy()
                self.copy_obj(args[0].loc, this, s)
                return [(s, Ref(this))]
            if not args:
                s = st.copy()
                s.mem[this] = Tok("kmap", "none", 0)
                return [(s, Ref(this))]
            return None
        m = this
        rest, k = self.state(st, m)
        atys = [self.argty(e, i) for i in range(len(args))]
        if n in ("begin", "cbegin", "end", "cend") and not args:
            return [(st, Tok("kit", m, n.lstrip("c")))]
        if n == "size" and not args:
            return [(st, self.total(st, m))]
        if n == "empty" and not args:
            return self.decide(st, self.le0(self.total(st, m)))
        if n == "clear":
            s = st.copy()
            s.mem[m] = Tok("kmap", "none", 0)
            return [(s, VOID)]
        if n == "max_size":
            return [(st, sym(self.fresh("max_size", "unsigned long")))]
        if n in ("find", "count", "contains", "equal_range", "at", "operator[]", "lower_bound", "upper_bound") and len(args) == 1:
            if not self.is_key(args[0], st):
                self.wrong.append((e, "looks up another name"))
                if n in ("find",):
                    return [(st, Tok("kit", m, "end")), (st.copy(), Tok("kit", m, "other"))]
                raise AnalysisError("a lookup under another name")
            if n == "find":
                return [(st, Tok("kit", m, "key" if k else "end"))]
            if n in ("lower_bound", "upper_bound") and not self.multi:
                if k and n == "lower_bound":
                    return [(st, Tok("kit", m, "key"))]
                return [(st, Tok("kit", m, "end")), (st.copy(), Tok("kit", m, "other"))]
            if n == "count":
                return [(st, Lin(k))]
            if n == "contains":
                return [(st, TRUE if k else FALSE)]
            if n == "equal_range":
                return [(st, Tok("range", m, k))]
            if n == "at":
                if not k:
                    self.throw(st.copy(), Exc("std::out_of_range", e))
                    return []
                return [(st, Ref(self.kv(m)))]
            if n == "operator[]":
                if k:
                    if rec.endswith("fields"):
                        return [(st, self.content(Ref(self.kv(m)), st))]
                    return [(st, Ref(self.kv(m)))]
                return [(x, Ref(self.kv(m))) for x in self.put_entry(st, m, 0, [], [], e)]
        if n == "erase" and len(args) == 1:
            a = args[0]
            t = st.mem.get(a.loc) if isinstance(a, Ref) else a
            if isinstance(t, Tok) and t.k[:1] == ("kit",):
                if t.k[2] == "end":
                    self.complain(e, "erases the position past the end")
                    return []
                if t.k[2] != "key" or self.multi:
                    raise AnalysisError("erasing by position")
            elif not self.is_key(a, st):
                self.wrong.append((e, "erases another name"))
                return [(st, Lin(0))]
            s = st.copy()
            self.clear(self.entry(m), s)
            for i in range(k):
                self.clear(self.entry(m, i), s)
            s.mem[m] = Tok("kmap", rest, 0)
            return [(s, Lin(k))]
        if rec.endswith("fields") and n in ("set", "insert") and len(args) in (2, 3):
            if len(args) == 3:
                args = [args[0], args[2]]
            if not self.is_key(args[0], st):
                self.wrong.append((e, "stores under another name"))
                return [(st, VOID)]
            s = st.copy()
            v = self.content(args[1], s)
            if n == "set":
                for i in range(k):
                    self.clear(self.entry(m, i), s)
                s.mem[m] = Tok("kmap", rest, 0)
                k = 0
            return [(x, VOID) for x in self.put_entry(s, m, k, [v], [], e)]
        if n in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if len(args) == 1 and isinstance(args[0], Ref) and st.mem.get(args[0].loc + (("get", "n"),)) == Lin(2):
                p = args[0].loc
                pt = (targs(atys[0]) + ["?", "?"])[:2]
                args, atys = [Ref(p + (("get", i),)) for i in (0, 1)], pt
            if len(args) not in (1, 2) or n in ("insert", "insert_or_assign") and len(args) != 2:
                raise AnalysisError("%s() of something that is not a pair" % n)
            if not self.is_key(args[0], st):
                self.wrong.append((e, "stores under another name"))
                return [(st, Tok("unmodelled"))]
            if k and n != "insert_or_assign":
                return [(st, Tok("unmodelled"))]
            s = st.copy()
            if k:
                self.clear(self.entry(m), s)
                s.mem[m] = Tok("kmap", rest, 0)
            return [(x, Tok("unmodelled")) for x in self.put_entry(s, m, 0, args[1:], atys[1:], e)]
        raise AnalysisError("%s() on a map" % n)


CLASSES = {
    # class: (field type test, several values per name)
    "mime::params_view": ("media type parameters", False),
    "web::query_map": ("query", False),
    "web::path_info": ("path parameters", False),
    "http::header_map": ("header fields", True),
}


def field_of(prog, cls, test):
    r = prog.rec_by_type.get("fitoria::" + cls)
    fs = [x for x in r["fields"] if test(sq(unq(x["t"])))] if r else []
    if len(fs) != 1:
        raise facts.AnalysisError("the members of %s are not the ones known" % cls)
    return fs[0]


def is_map(t):
    return t in ("std::map", "std::unordered_map") or t.endswith("basic_fields")


class Case:
    """one call of one member on a container that holds k values under the name asked for"""

    def __init__(self, prog, rep, cls, f, k, fld, multi, key_param=0):
        self.prog = prog
        self.it = it = Keyed(prog, rep)
        self.f = f
        it.wrong = []
        it.multi = multi
        it.size = sym(("n", "rest"))
        st = St()
        st = it.assume_le(st, -it.size) or st
        st = it.assume_le(st, it.size - (1 << 40)) or st
        it.name = it.text("key", st)
        self.newval = it.text("value", st)
        ta = targs(fld["t"])
        it.vtype = None if multi else ta[1]
        it.ktype = None if multi else ta[0]
        it.lty[PLACE] = "fitoria::" + cls
        self.m = m = PLACE + (("f", fld["n"]),)
        it.lty[m] = unq(fld["t"])
        st.mem[m] = Tok("kmap", "rest", k)
        self.k = k
        self.old = []
        it.run_setup()
        for i in range(k):
            o = it.text("old%d" % i, st)
            self.old.append(o)
            self.place(it, st, it.kv(m, i), it.vtype, o)
            if not multi:
                self.place(it, st, it.entry(m, i) + (("get", 0),), it.ktype, it.name)
        # the arguments
        al = []
        for i, p in enumerate(f["params"]):
            l = (("ext", "arg%d" % i),)
            t = unq(p["t"]).rstrip("& ")
            it.lty[l] = t
            v = it.name if i == key_param else self.newval
            if i == key_param and sq(t).endswith("field"):
                it.name = Tok("field")
                st.mem[l] = it.name
            else:
                self.place(it, st, l, t, v)
            al.append(Ref(l))
        self.st, self.args = st, al

    def place(self, it, st, l, ty, v):
        """a value of type ty with the text v at l"""
        r = self.prog.rec_by_type.get(unq(ty)) if ty else None
        if r and not it.base(ty) in TXT:
            fs = r["fields"]
            if len(fs) != 1:
                raise facts.AnalysisError("the members of a name are not the ones known")
            it.lty[l] = unq(ty)
            return self.place(it, st, l + (("f", fs[0]["n"]),), fs[0]["t"], v)
        it.lty[l] = unq(ty) if ty else "std::basic_string_view<char>"
        st.mem[l] = v

    def go(self):
        return self.it.run(self.f, self.args, self.st, PLACE)

    def after(self, s):
        """(rest, texts held under the name) in a final state"""
        it = self.it
        rest, n = it.state(s, self.m)
        return rest, [it.content(Ref(it.kv(self.m, i)), s) for i in range(n)]


def opt_of(it, s, v):
    """('none'|'some'|None, what it refers to or holds)"""
    l = v.loc if isinstance(v, Ref) else None
    k = it.vstate(l, s) if l is not None else None
    if k != "some":
        return k, None
    w = s.mem.get(l + (("val",),))
    return k, w if isinstance(w, Ref) else Ref(l + (("val",),))


def member(rep, prog, cls, what, multi, name, judge, keep, key_param=0, sel=None):
    """run every overload of a member for each number of values held under the name"""
    fld = field_of(prog, cls, is_map)
    n = 0
    for f in [x for x in fns(prog, cls + "::" + name) if sel is None or sel(x)]:
        for k in (0, 1, 2) if multi else (0, 1):
            c = Case(prog, rep, cls, f, k, fld, multi, key_param)
            res, thr = c.go()
            key = "%s:%s" % (cls.split("::")[-1], name)
            for e, msg in c.it.wrong:
                rep.violation(key + ":name", f, e.get("l"), "%s() of the %s %s" % (name, what, msg))
            if not c.it.wrong:
                for s, v in res:
                    n += 1
                    rest, vals = c.after(s)
                    if keep and (rest != "rest" or len(vals) != k or not all(same_view(c.it, s, a, b) for a, b in zip(vals, c.old))):
                        rep.violation(key + ":const", f, None, "%s() changes the %s" % (name, what))
                    msg = judge(c, s, v, rest, vals)
                    if msg:
                        rep.violation(key, f, None, "%s() of the %s %s" % (name, what, msg))
                for s, x in thr:
                    n += 1
                    msg = judge(c, s, None, None, x)
                    if msg:
                        rep.violation(key + ":throw", f, None, "%s() of the %s %s" % (name, what, msg))
            flush(rep, c.it, f["sqn"])
        rep.analysed(f)
    return n


def same(c, s, a, b):
    return isinstance(a, (V, Str)) and isinstance(b, (V, Str)) and same_view(c.it, s, a, b)


def truth(c, s, v, want):
    """is v the boolean want (a Python bool, or a condition 'size is zero')?"""
    t, f = c.it.branch(s, v)
    return not (f if want else t)


def j_contains(c, s, v, rest, vals):
    if v is None:
        return "throws"
    return None if truth(c, s, v, c.k > 0) else "is wrong when the name is %s" % ("present" if c.k else "absent")


def j_get(c, s, v, rest, vals):
    if v is None:
        return "throws"
    k, w = opt_of(c.it, s, v)
    if k is None:
        raise facts.AnalysisError("what get() gives is not recognised")
    if (k == "some") != (c.k > 0):
        return "gives %s when the name is %s" % ("a value" if k == "some" else "nothing", "present" if c.k else "absent")
    if c.k:
        if is_ref(targs(c.f["ret"])[0]):
            if w.loc != c.it.kv(c.m):
                return "refers to something else than the value held under the name"
        elif not same(c, s, c.it.content(w, s), c.old[0]):
            return "gives another value than the one held under the name"


def j_at(c, s, v, rest, vals):
    if v is None:
        if c.k:
            return "throws though the name is present"
        return None if vals.ty in EXT else "throws something else than an out-of-range error"
    if not c.k:
        return "gives a value though the name is absent"
    if not (isinstance(v, Ref) and v.loc == c.it.kv(c.m)):
        return "refers to something else than the value held under the name"


def j_index(c, s, v, rest, vals):
    if v is None:
        return "throws"
    if rest != "rest" or len(vals) != 1:
        return "changes other entries"
    if c.k and not same(c, s, vals[0], c.old[0]):
        return "changes the value held under the name"
    if not (isinstance(v, Ref) and v.loc == c.it.kv(c.m)):
        return "refers to something else than the value held under the name"


def j_set(c, s, v, rest, vals):
    if v is None:
        return "throws"
    if rest != "rest":
        return "changes other entries"
    if len(vals) != 1 or not same(c, s, vals[0], c.newval):
        return "does not leave exactly the new value under the name" + (" when it was present" if c.k else "")


def j_insert(c, s, v, rest, vals):
    if v is None:
        return "throws"
    if rest != "rest":
        return "changes other entries"
    if len(vals) != c.k + 1 or not all(same(c, s, a, b) for a, b in zip(vals, c.old + [c.newval])):
        return "does not add exactly the new value under the name"


def j_erase(c, s, v, rest, vals):
    if v is None:
        return "throws"
    if rest != "rest":
        return "changes other entries"
    if vals:
        return "leaves the name present"
    if isinstance(v, Lin):
        return None if v == Lin(c.k) else "gives a wrong number of entries erased"
    k, w = opt_of(c.it, s, v)
    if k is None:
        raise facts.AnalysisError("what erase() gives is not recognised")
    if (k == "some") != (c.k > 0):
        return "gives %s when the name was %s" % ("a value" if k == "some" else "nothing", "present" if c.k else "absent")
    if c.k and not same(c, s, c.it.content(w, s), c.old[0]):
        return "gives another value than the one erased"


def j_size(c, s, v, rest, vals):
    if v is None:
        return "throws"
    v = c.it.pos(v, s) if not isinstance(v, Lin) else v
    return None if c.it.same(s, v, c.it.size + c.k) else "is not the number of entries"


def j_empty(c, s, v, rest, vals):
    if v is None:
        return "throws"
    t, f = c.it.branch(s, v)
    tot = c.it.size + c.k
    if any(not c.it.entails(x, tot) for x in t) or any(not c.it.entails(x, Lin(1) - tot) for x in f):
        return "does not tell whether there are entries"


def j_clear(c, s, v, rest, vals):
    if v is None:
        return "throws"
    return None if rest == "none" and not vals else "leaves entries behind"


def j_ends(c, s, v, rest, vals):
    if v is None:
        return "throws"
    t = s.mem.get(v.loc) if isinstance(v, Ref) else v
    if not (isinstance(t, Tok) and t.k[:1] == ("kit",)):
        raise facts.AnalysisError("a position is not recognised")
    return None if t == Tok("kit", c.m, c.f["n"].lstrip("c")) else "is misplaced"


def j_range(c, s, v, rest, vals):
    if v is None:
        return "throws"
    return None if v == Tok("range", c.m, c.k) else "is not the range of the values held under the name"


JUDGES = {"begin": (j_ends, True), "cbegin": (j_ends, True), "end": (j_ends, True), "cend": (j_ends, True),
          "contains": (j_contains, True), "get": (j_get, True), "at": (j_at, True), "operator[]": (j_index, False), "set": (j_set, False),
          "insert": (j_insert, False), "erase": (j_erase, False), "size": (j_size, True), "empty": (j_empty, True),
          "clear": (j_clear, False), "equal_range": (j_range, True)}


def by_name(f):
    return not f["params"] or not unq(f["params"][0]["t"]).startswith("unsigned")


def container(rep, prog, cls):
    what, multi = CLASSES[cls]
    n = 0
    for name, (judge, keep) in JUDGES.items():
        if judge == j_ends and cls == "web::path_info":
            continue                # see positions()
        try:
            n += member(rep, prog, cls, what, multi, name, judge, keep, sel=by_name)
        except facts.AnalysisError as x:
            rep.undecided("%s::%s" % (cls, name), x)
    rep.obligation("outcomes of %s compared" % cls, n)
    return n


# ---- parameters by position
class Pos(Keyed):
    """the names of the parameters in their order: a list of as many names as there are entries; the one asked about is K"""

    def hook_call(self, fn, st, this, args, e):
        n = fn.get("n")
        l = this if this is not None else None
        t = st.mem.get(l) if l is not None else None
        if isinstance(t, Tok) and t.k[:1] == ("names",):
            r = self.names_op(n, t, fn, st, this, args, e)
            if r is not None:
                return r
        ts = [st.mem.get(a.loc) if isinstance(a, Ref) else a for a in ([Ref(this)] if this is not None else []) + list(args)]
        ts = [x for x in ts if isinstance(x, Tok) and x.k[:1] == ("nit",)]
        if ts:
            i = ts[0]
            if n in ("operator==", "operator!=") and len(ts) == 2:
                d = ts[0].k[2] - ts[1].k[2]
                return self.decide(st, self.cmp_lin("==" if n == "operator==" else "!=", d))
            if n in ("operator++", "operator--") and this is not None:
                s = st.copy()
                w = Tok("nit", i.k[1], i.k[2] + (1 if n == "operator++" else -1))
                s.mem[this] = w
                if args:
                    return [(s, i)]
                return [(s, Ref(this))]
            if n == "operator*" and len(ts) == 1:
                return self.name_at(i.k[1], i.k[2], st, e)
            if n in ("operator+", "operator-") and len(args) == 1 and this is not None:
                d = self.pos(args[0], st)
                return [(st, Tok("nit", i.k[1], i.k[2] + (d if n == "operator+" else -d)))]
            if n == "__normal_iterator" and this is not None:
                s = st.copy()
                s.mem[this] = i
                return [(s, Ref(this))]
        return Keyed.hook_call(self, fn, st, this, args, e)

    def name_at(self, l, i, st, e):
        t, f = self.branch(st, self.cmp_lin("<", i - self.size))
        if f:
            self.complain(e, "reads a name past the last parameter")
        t = [x for x in t if x is not None]
        out = []
        for s in t:
            if self.entails(s, -i) is False or not self.entails(s, -i):
                self.complain(e, "reads a name before the first parameter")
            out.append((s, Ref(self.at if self.same(s, i, self.index) else l + (("some", i),))))
        return out

    def names_op(self, n, t, fn, st, this, args, e):
        if n in ("size", "empty") and not args:
            return [(st, self.size)] if n == "size" else self.decide(st, self.le0(self.size))
        if n in ("operator[]", "at") and len(args) == 1:
            i = self.pos(args[0], st)
            if n == "operator[]":
                return self.name_at(this, i, st, e)
            out = []
            t, f = self.branch(st, self.cmp_lin("<", i - self.size))
            for s in f:
                self.throw(s.copy(), Exc("std::out_of_range", e))
            for s in t:
                out += self.name_at(this, i, s, e)
            return out
        if n in ("begin", "cbegin", "end", "cend"):
            return [(st, Tok("nit", this, Lin(0) if n.endswith("begin") else self.size))]
        return None

    def total(self, st, m):
        return self.size


def by_index(rep, prog):
    """the i-th parameter is the value held under the i-th name, and there is none past the last"""
    cls = "web::path_info"
    fld = field_of(prog, cls, is_map)
    names = field_of(prog, cls, lambda t: t == "std::vector")
    n = 0
    for f in [x for m in ("get", "at", "find") for x in fns(prog, cls + "::" + m, 1) if not by_name(x)]:
        for inside in (True, False):
            c = Case.__new__(Case)
            Case.__init__(c, prog, rep, cls, f, 1, fld, False, None)
            it = Pos(prog, rep)
            it.__dict__.update({k: v for k, v in c.it.__dict__.items()})
            c.it = it
            it.at = PLACE + (("f", names["n"]), ("the", "name"))
            it.lty[it.at] = "std::basic_string<char>"
            st = c.st
            st.mem[it.at] = it.name
            st.mem[PLACE + (("f", names["n"]),)] = Tok("names")
            i = it.index = sym(it.fresh("i", "unsigned long"))
            st = it.assume_le(st, -i)
            st = it.assume_le(st, i + 1 - it.size) if inside else it.assume_le(st, it.size - i)
            l = c.args[0].loc
            st.mem[l] = i
            it.lty[l] = "unsigned long"
            c.st = st
            c.k = 1 if inside else 0
            it.run_setup()
            res, thr = it.run(f, [i], st, PLACE)
            name = f["n"]
            key = "path_info:%s-index" % name
            for e, msg in it.wrong:
                rep.violation(key + ":name", f, e.get("l"), "%s() of the i-th path parameter %s" % (name, msg))
            for s, v, x in [(s, v, None) for s, v in res] + [(s, None, x) for s, x in thr]:
                n += 1
                if name == "find":
                    want = Tok("kit", c.m, "key" if inside else "end")
                    got = s.mem.get(v.loc) if isinstance(v, Ref) else v
                    msg = None if got == want else "finds something else"
                elif v is None:
                    msg = (j_at if name == "at" else j_get)(c, s, None, None, x)
                else:
                    msg = (j_at if name == "at" else j_get)(c, s, v, None, None)
                if msg and not it.wrong:
                    rep.violation(key, f, None, "%s() of the %s path parameter %s" % (
                        name, "i-th" if inside else "parameter past the last", msg))
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    rep.obligation("outcomes by position compared", n)


# ---- containers made from a list of entries
class Fill(Pos):
    """A loop over the entries is decided by one round from any earlier contents (induction over the list)."""
    EL = (("ext", "entry"),)
    held = 0
    source = None
    join = None

    def range_loop(self, n, rl, st):
        l = rl
        while isinstance(st.mem.get(l), Ref):
            l = st.mem[l].loc
        t = st.mem.get(l)
        if not (isinstance(t, Tok) and (t == Tok("entries") or l == self.source and t.k[:1] == ("kmap",))):
            return Pos.range_loop(self, n, rl, st)
        s = st.copy()
        after = st.copy()
        for k, v in list(st.mem.items()):
            if k == l or not isinstance(v, Tok) or k[0][0] == "t":
                continue
            if v.k[:1] == ("kmap",) and v.k[1] in ("none", "into"):
                s.mem[k] = Tok("kmap", "rest", self.held)
                if self.held:
                    self.place(s, self.kv(k), self.vtype, self.oldval)
                after.mem[k] = Tok("kmap", "filled", 0)
                self.target = k
            elif v.k[:1] == ("names",):
                s.mem[k] = Tok("names", "some", ())
                after.mem[k] = Tok("names", "filled", ())
        if self.join is not None:
            strs = [k for k, v in st.mem.items() if v == Str("") and k[0][0] == "v" and self.base(self.lty.get(k, "")) in TXT]
            if len(strs) != 1:
                raise AnalysisError("where the text is built is not recognised")
            self.target = strs[0]
            s.mem[strs[0]] = self.join
            after.mem[strs[0]] = self.join
        var = n["var"]
        vloc = (("v", self.frames[-1].fid, var["id"]),)
        self.lty[vloc] = unq(var["t"])
        if is_ref(var["t"]):
            s.mem[vloc] = Ref(self.EL)
        else:
            self.copy_obj(self.EL, vloc, s)
        starts = self.bindings(var, vloc, s) if var.get("binds") else [s]
        had = [len(r) for r in self.rets]
        out = Out()
        for x in starts:
            o = self.ex(n["body"], x)
            self.rounds += o.n + o.c
            self.stops += bool(o.b)
        if [len(r) for r in self.rets] != had:
            self.stops += 1
        out.n.append(after)
        return out

    def names_op(self, n, t, fn, st, this, args, e):
        if n in ("push_back", "emplace_back") and len(args) == 1 and len(t.k) == 3:
            s = st.copy()
            s.mem[this] = Tok("names", t.k[1], t.k[2] + (self.content(args[0], st),))
            return [(s, VOID)]
        if n in ("reserve", "shrink_to_fit"):
            return [(st, VOID)]
        if n.startswith("~"):
            return [(st, VOID)]
        if len(t.k) == 3:
            return None
        return Pos.names_op(self, n, t, fn, st, this, args, e)

    def hook_call(self, fn, st, this, args, e):
        n, rec = fn.get("n"), sq(unq(fn.get("rec", "")))
        if n in ("begin", "end") and this is not None and st.mem.get(this) == Tok("entries"):
            return [(st, Tok("eit", this, n))]
        if n in ("map", "unordered_map") and this is not None and args:
            a = [st.mem.get(x.loc) if isinstance(x, Ref) else x for x in args]
            l = [x.loc if isinstance(x, Ref) else None for x in args]
            if isinstance(a[0], Tok) and a[0].k[:1] == ("eit",) and isinstance(a[1], Tok):
                s = st.copy()
                s.mem[this] = Tok("kmap", "filled" if (a[0].k[2], a[1].k[2]) == ("begin", "end") and a[0].k[1] == a[1].k[1]
                                  else "none", 0)
                return [(s, Ref(this))]
            if a[0] == Tok("entries"):
                s = st.copy()
                s.mem[this] = Tok("kmap", "filled", 0)
                return [(s, Ref(this))]
        if n == "vector" and this is not None and not args and self.base(targs(fn["rec"])[0]) in TXT:
            s = st.copy()
            s.mem[this] = Tok("names", "none", ())
            return [(s, Ref(this))]
        if this is not None and this[:len(self.EL)] == self.EL or "basic_fields" in rec and n in ("value", "name_string"):
            if n == "name_string":
                return [(st, self.name)]
            if n == "value":
                return [(st, self.newval)]
        return Pos.hook_call(self, fn, st, this, args, e)

    def e_MemberExpr(self, e, st):
        out = []
        for s, v in Pos.e_MemberExpr(self, e, st):
            if isinstance(v, Ref) and v.loc[:-1] and isinstance(s.mem.get(v.loc[:-1] + (("is", "param"),)), Tok):
                pass
            out.append((s, v))
        return out

    def place(self, st, l, ty, v):
        r = self.prog.rec_by_type.get(unq(ty)) if ty else None
        if r and self.base(ty) not in TXT:
            self.lty[l] = unq(ty)
            return self.place(st, l + (("f", r["fields"][0]["n"]),), r["fields"][0]["t"], v)
        self.lty[l] = unq(ty) if ty else "std::basic_string_view<char>"
        st.mem[l] = v


def filler(prog, rep, fld, multi):
    it = Fill(prog, rep)
    it.prog, it.wrong, it.multi = prog, [], multi
    it.size = sym(("n", "rest"))
    st = St()
    it.name, it.newval, it.oldval = it.text("key", st), it.text("value", st), it.text("old0", st)
    it.vtype = None if multi else targs(fld["t"])[1]
    it.rounds, it.stops, it.target = [], 0, None
    it.run_setup()
    it.lty[PLACE] = ""
    el = it.EL
    for i, v in ((0, it.name), (1, it.newval)):
        it.lty[el + (("get", i),)] = "std::basic_string<char>"
        st.mem[el + (("get", i),)] = v
    st.mem[el + (("get", "n"),)] = Lin(2)
    for x, v in (("key", it.name), ("value", it.newval)):
        it.lty[el + (("f", x),)] = "std::basic_string<char>"
        st.mem[el + (("f", x),)] = v
    return it, st


def one_round(rep, it, f, key, what, any_old, multi=False):
    n = 0
    for e, msg in it.wrong:
        rep.violation(key + ":name", f, e.get("l"), "%s %s" % (what, msg))
    if it.stops:
        rep.violation(key + ":all", f, None, "%s stops before the last entry" % what)
    for s in it.rounds:
        n += 1
        rest, k = it.state(s, it.target)
        vals = [it.content(Ref(it.kv(it.target, i)), s) for i in range(k)]
        texts = all(isinstance(v, (V, Str)) for v in vals)
        if not texts:
            raise facts.AnalysisError("what %s stores is not recognised" % what)
        new = [same_view(it, s, v, it.newval) for v in vals]
        old = [same_view(it, s, v, it.oldval) for v in vals]
        ok = rest == "rest" and (
            (len(vals) == it.held + 1 and new[-1] and all(old[:-1])) if multi else
            (len(vals) == 1 and (new[0] or any_old and it.held and old[0])))
        if not ok and not it.wrong:
            rep.violation(key, f, None, "%s does not take over an entry as it is" % what)
        for l, v in s.mem.items():
            if isinstance(v, Tok) and v.k[:1] == ("names",) and l[0][0] != "t":
                n += 1
                if not (v.k[1] == "some" and len(v.k[2]) == 1 and isinstance(v.k[2][0], (V, Str)) and
                        same_view(it, s, v.k[2][0], it.name)):
                    rep.violation(key + ":names", f, None, "%s does not list the names in their order" % what)
    return n


def fills(rep, prog):
    n = 0
    # path parameters: from a list of pairs
    cls = "web::path_info"
    fld = field_of(prog, cls, is_map)
    for f in [x for x in fns(prog, cls + "::path_info", 3)]:
        it, st = filler(prog, rep, fld, False)
        al = []
        for i, x in enumerate(("pattern", "path", None)):
            l = (("ext", "arg%d" % i),)
            it.lty[l] = unq(f["params"][i]["t"])
            st.mem[l] = it.text(x, st) if x else Tok("entries")
            al.append(Ref(l))
        want = [st.mem[a.loc] for a in al]
        it.lty[PLACE] = "fitoria::" + cls
        res, thr = it.run(f, al, st, PLACE)
        if not it.rounds:
            raise facts.AnalysisError("the list of parameters is not read in a loop over it")
        n += one_round(rep, it, f, "path_info:from-list", "making the path parameters from a list", False)
        for s, v in res:
            n += 1
            for m, w in (("match_pattern", want[0]), ("match_path", want[1])):
                for g in fns(prog, cls + "::" + m, 0):
                    it.run_setup()
                    r2, _ = it.run(g, [], s, PLACE)
                    for s2, v2 in r2:
                        n += 1
                        c = it.content(v2, s2)
                        if not (isinstance(c, (V, Str)) and same_view(it, s2, c, w)):
                            rep.violation("path_info:" + m, g, None, "%s() is not the one given" % m)
            for k, v in s.mem.items():
                if isinstance(v, Tok) and k[:1] == PLACE and v.k[:1] in (("kmap",), ("names",)) and v.k[1] != "filled":
                    rep.violation("path_info:from-list:lost", f, None, "making the path parameters from a list loses entries")
        rep.analysed(f)
        flush(rep, it, f["sqn"])
    # a query: from the parameters of a URL
    cls = "web::query_map"
    fld = field_of(prog, cls, is_map)
    for f in fns(prog, cls + "::from", 1):
        for held in (0, 1):
            it, st = filler(prog, rep, fld, False)
            it.held = held
            l = (("ext", "arg0"),)
            it.lty[l] = unq(f["params"][0]["t"])
            st.mem[l] = Tok("entries")
            hv = it.EL + (("f", "has_value"),)
            it.lty[hv] = "bool"
            st.mem[hv] = TRUE
            res, thr = it.run(f, [Ref(l)], st, None)
            if not it.rounds:
                raise facts.AnalysisError("the parameters of a URL are not read in a loop over them")
            n += one_round(rep, it, f, "query_map:from", "making a query from a URL", True)
            for s, v in res:
                n += 1
                ks = [x for x in s.mem if isinstance(v, Ref) and x[:len(v.loc)] == v.loc and isinstance(s.mem[x], Tok)
                      and s.mem[x].k[:1] == ("kmap",)]
                if len(ks) != 1 or s.mem[ks[0]] != Tok("kmap", "filled", 0):
                    rep.violation("query_map:from:lost", f, None, "making a query from a URL loses entries")
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    # from a braced list of entries
    for cls in ("mime::params_view", "web::query_map"):
        fld = field_of(prog, cls, is_map)
        for f in [x for x in fns(prog, cls + "::" + cls.split("::")[1], 1) if "initializer_list" in x["params"][0]["t"]]:
            it, st = filler(prog, rep, fld, False)
            l = (("ext", "arg0"),)
            it.lty[l] = unq(f["params"][0]["t"])
            st.mem[l] = Tok("entries")
            it.lty[PLACE] = "fitoria::" + cls
            res, thr = it.run(f, [Ref(l)], st, PLACE)
            n += one_round(rep, it, f, cls.split("::")[1] + ":from-list", "making the %s from a list" % CLASSES[cls][0], True)
            for s, v in res:
                n += 1
                t = s.mem.get(PLACE + (("f", fld["n"]),))
                if not isinstance(t, Tok):
                    raise facts.AnalysisError("what a list of entries becomes is not recognised")
                if t != Tok("kmap", "filled", 0):
                    rep.violation(cls.split("::")[1] + ":from-list", f, None,
                                  "making the %s from a list loses entries" % CLASSES[cls][0])
            flush(rep, it, f["sqn"])
            rep.analysed(f)
    # a query as text: name=value pairs with '&' between them
    cls = "web::query_map"
    fld = field_of(prog, cls, is_map)
    for f in fns(prog, cls + "::to_string", 0):
        style = None
        for step in ("first", "next"):
            it, st = filler(prog, rep, fld, False)
            it.source = PLACE + (("f", fld["n"]),)
            st.mem[it.source] = Tok("kmap", "rest", 1)
            sofar = it.text("sofar", st)
            st = it.assume_le(st, Lin(1) - sofar.n)
            it.join = Str("") if step == "first" else cat(sofar, Str("&")) if style else sofar
            it.lty[PLACE] = "fitoria::" + cls
            res, thr = it.run(f, [], st, PLACE)
            if not it.rounds:
                raise facts.AnalysisError("the query is not written in a loop over its entries")
            pair = [it.name, Str("="), it.newval]
            for s in it.rounds:
                n += 1
                got = s.mem.get(it.target)
                if step == "first":
                    style = got == cat(*pair, Str("&"))
                want = cat(*([] if step == "first" else [sofar, Str("&")]), *pair, *([Str("&")] if style else []))
                if got != want:
                    rep.violation("query_map:text", f, None, "a query's text is not its name=value pairs with '&' between them")
            for s, v in res:
                n += 1
                got = it.content(v, s)
                want = Str("") if step == "first" else sofar
                if not (isinstance(got, (V, Str)) and same_view(it, s, got, want)):
                    rep.violation("query_map:text", f, None, "a query's text is not its name=value pairs with '&' between them")
            if it.stops:
                rep.violation("query_map:text:all", f, None, "a query's text stops before the last entry")
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    # header fields: to and from the form they are sent in
    cls = "http::header_map"
    fld = field_of(prog, cls, is_map)
    for f in fns(prog, cls + "::to_impl", 1):
        for held in (0, 1):
            it, st = filler(prog, rep, fld, True)
            it.held = held
            it.source = PLACE + (("f", fld["n"]),)
            st.mem[it.source] = Tok("kmap", "rest", 1)
            l = (("ext", "arg0"),)
            st.mem[l] = Tok("kmap", "into", 0)
            it.lty[PLACE] = "fitoria::" + cls
            res, thr = it.run(f, [Ref(l)], st, PLACE)
            if not it.rounds:
                raise facts.AnalysisError("the header fields are not read in a loop over them")
            n += one_round(rep, it, f, "header_map:to", "sending the header fields", False, True)
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    for f in fns(prog, cls + "::from_impl", 1):
        it, st = filler(prog, rep, fld, True)
        l = (("ext", "arg0"),)
        it.lty[l] = unq(f["params"][0]["t"])
        st.mem[l] = Tok("kmap", "rest", 1)
        st.mem[it.kv(l)] = it.oldval
        res, thr = it.run(f, [Ref(l)], st, None)
        for s, v in res:
            n += 1
            m = v.loc + (("f", fld["n"]),)
            if s.mem.get(m) != Tok("kmap", "rest", 1) or s.mem.get(it.kv(m)) != it.oldval:
                rep.violation("header_map:from", f, None, "taking over header fields changes them")
        rep.analysed(f)
        flush(rep, it, f["sqn"])
    rep.obligation("rounds and results of filling compared", n)


def positions(rep, prog):
    """walking over the path parameters: in the order of the names, each with its own value"""
    cls = "web::path_info"
    fld = field_of(prog, cls, is_map)
    names = field_of(prog, cls, lambda t: t == "std::vector")
    I = cls + "::const_iterator_impl"
    ir = prog.rec_by_type.get("fitoria::" + I)
    fs = {("parent" if unq(x["t"]).endswith("*") else "pos"): x["n"] for x in ir["fields"]} if ir else {}
    if set(fs) != {"parent", "pos"} or len(ir["fields"]) != 2:
        raise facts.AnalysisError("the members of a position are not the ones known")
    n = 0
    NL = PLACE + (("f", names["n"]),)
    here = (("ext", "position"),)
    todo = [(I, m, p) for m, p in (("operator*", 0), ("operator->", 0), ("operator++", 0), ("operator++", 1), ("operator--", 0),
                                   ("operator--", 1))] + [(cls, m, 0) for m in ("begin", "cbegin", "end", "cend", "keys")]
    for c, m, np in todo:
        for f in fns(prog, c + "::" + m, np):
            case = Case(prog, rep, cls, f, 1, fld, False, None)
            it = Pos(prog, rep)
            it.__dict__.update(case.it.__dict__)
            st = case.st
            it.at = NL + (("the", "name"),)
            it.lty[it.at] = "std::basic_string<char>"
            st.mem[it.at] = it.name
            st.mem[NL] = Tok("names")
            i = it.index = sym(it.fresh("i", "long"))
            st = it.assume_le(st, -i + (1 if "--" in m else 0))
            st = it.assume_le(st, i + 1 - it.size) if "--" not in m else it.assume_le(st, i - it.size)
            st.mem[here + (("f", fs["parent"]),)] = Ptr(PLACE)
            st.mem[here + (("f", fs["pos"]),)] = Tok("nit", NL, i)
            it.lty[here] = "fitoria::" + I
            it.run_setup()
            args = [Lin(0)] * np
            res, thr = it.run(f, args, st, here if c == I else PLACE)

            def at(s, l):
                p, w = s.mem.get(l + (("f", fs["parent"]),)), s.mem.get(l + (("f", fs["pos"]),))
                if not (isinstance(p, Ptr) and isinstance(w, Tok) and w.k[:1] == ("nit",)):
                    raise facts.AnalysisError("a position's members are not recognised")
                return w.k[2] if p.loc == PLACE and w.k[1] == NL else None
            key = "path_info:" + m
            for e, msg in it.wrong:
                rep.violation(key + ":name", f, e.get("l"), "%s of the path parameters %s" % (m, msg))
            for s, v in res:
                n += 1
                if m in ("operator*", "operator->"):
                    if (v.loc if isinstance(v, (Ref, Ptr)) else None) != it.entry(case.m):
                        rep.violation(key, f, None, "a position does not give its own parameter")
                elif m == "keys":
                    l = v.loc if isinstance(v, Ref) else None
                    if s.mem.get(l) != Tok("names"):
                        rep.violation(key, f, None, "keys() is not the list of names")
                elif c == I:
                    d = 1 if "++" in m else -1
                    a = at(s, here)
                    if a is None or not it.same(s, a, i + d):
                        rep.violation(key, f, None, "%s does not move by one" % m)
                    if np:
                        r = at(s, v.loc) if isinstance(v, Ref) else None
                        if r is None or not it.same(s, r, i):
                            rep.violation(key + ":result", f, None, "the position before %s is not given" % m)
                    elif not (isinstance(v, Ref) and v.loc == here):
                        rep.violation(key + ":result", f, None, "%s does not give the position itself" % m)
                else:
                    a = at(s, v.loc)
                    if a is None or not it.same(s, a, Lin(0) if "begin" in m else it.size):
                        rep.violation(key, f, None, "%s() of the path parameters is misplaced" % m)
            flush(rep, it, f["sqn"])
            rep.analysed(f)
    rep.obligation("positions compared", n)


PARTS = {c: (lambda c: lambda rep, prog: container(rep, prog, c))(c) for c in CLASSES}
PARTS.update(index=by_index, fills=fills, positions=positions)


def main(rep):
    prog = facts.load("keyed")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("results", sum(n for k, n in rep.obl if "compared" in k), 3)


if __name__ == "__main__":
    report.run("C13", "abstract interpretation over an abstract map (one name, its values, the rest)",
               "every member of a keyed container does what a map from names to values does", main)
