"""C16: composing routes and scopes."""
import re
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
import states  # noqa: E402
import witness  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from states import States  # noqa: E402
from strs import flush  # noqa: E402

PLACE = (("ext", "self"),)
SERVED = (("gh", "served"),)
KEY = Tok("typeid", "compose::state")
MINE = "compose::"


def path_of(ty):
    """the text of a fixed_string in the spelling of a type"""
    m = re.search(r"\{\{\{([0-9, ]*)\}\}\}", ty)
    return "".join(chr(int(x)) for x in m.group(1).split(",") if x.strip()) if m else None


def is_route(ty):
    return sq(unq(ty)).endswith("web::route_impl")


def is_scope(ty):
    return sq(unq(ty)).endswith("web::scope_impl")


class Comp(States):
    """Handlers, middlewares and states are opaque values; tuples, routes and scopes are not."""

    def opaque(self, ty):
        u = unq(ty).rstrip("& ")
        return u.startswith(MINE) and not u.startswith(MINE + "wrapped")

    def made_of(self, ty, tag, st, loc):
        """an arbitrary object of type ty at loc, its parts named by tag"""
        ty = unq(ty)
        self.lty[loc] = ty
        b = sq(ty)
        if self.opaque(ty):
            st.mem[loc] = Tok("any", KEY, tag) if ty == MINE + "state" else Tok("opq", ty, tag)
        elif b == "std::tuple":
            ts = [t for t in targs(ty) if t]
            st.mem[loc + (("get", "n"),)] = Lin(len(ts))
            for i, t in enumerate(ts):
                self.made_of(t, tag + (i,), st, loc + (("get", i),))
        elif b == "std::shared_ptr":
            m = (("map", tag),)
            self.lty[m] = "std::unordered_map<k, v>"
            has = self.shape.get("map", "empty")
            st.mem[m] = Tok("kmap", "none" if has == "empty" else "rest", 1 if has == "has" else 0)
            if has == "has":
                st.mem[self.kv(m)] = Tok("any", KEY, ("old",) + tag)
            st.mem[loc] = Ptr(m)
        elif b.endswith("state_storage"):
            ps = []
            for i, has in enumerate(self.shape.get("own", ())):
                ps.append(states.mapped(self, st, (("map", tag + (i,)),), has, tag + (i,)))
            self.fill(st, loc + (("f", self.only(ty, "std::vector")),), ps)
        elif b.endswith("http::verb"):
            st.mem[loc] = sym(("verb",) + tag)
        else:
            r = self.p.rec_by_type.get(ty)
            if r is None or not (is_route(ty) or is_scope(ty) or b.endswith("routable")):
                raise AnalysisError("an object of type %s" % ty)
            for f in r["fields"]:
                self.made_of(f["t"], tag + (f["n"],), st, loc + (("f", f["n"]),))

    def only(self, ty, base):
        r = self.p.rec_by_type.get(unq(ty))
        fs = [f["n"] for f in (r or {"fields": []})["fields"] if sq(unq(f["t"])) == base or sq(unq(f["t"])).endswith("::" + base)]
        if len(fs) != 1:
            raise AnalysisError("the members of %s are not the ones known" % unq(ty))
        return fs[0]

    def read(self, ty, st, loc):
        """what the object of type ty at loc is, as a value"""
        ty = unq(ty)
        b = sq(ty)
        if self.opaque(ty):
            v = self.held(Ref(loc), st)
            return v
        if b == "std::tuple":
            return tuple(self.read(t, st, loc + (("get", i),)) for i, t in enumerate(x for x in targs(ty) if x))
        if b == "std::shared_ptr":
            return self.map_value(self.ptr(Ref(loc), st), st)
        if b.endswith("state_storage"):
            ms = [self.map_value(p, st) for p in self.items(st, loc + (("f", self.only(ty, "std::vector")),))]
            return tuple(m for m in ms if m != ("none", None))
        if b.endswith("http::verb"):
            v = st.mem.get(loc)
            return self.load(loc, "int", st) if v is None or isinstance(v, Ref) else v
        if b.endswith("path_matcher"):
            return self.held(Ref(loc), st)
        r = self.p.rec_by_type.get(ty)
        if r is None:
            raise AnalysisError("an object of type %s" % ty)
        if is_route(ty):
            return ("route", path_of(ty), self.field(ty, "verb", st, loc), self.field(ty, "state_storage", st, loc),
                    self.field(ty, "std::tuple", st, loc), self.read(targs(ty)[2], st, loc + (("f", self.handler_of(ty)),)))
        if is_scope(ty):
            mw, rt = targs(ty)[1:3]
            fs = {unq(f["t"]): f["n"] for f in r["fields"]}
            ts = [f["n"] for f in r["fields"] if sq(unq(f["t"])) == "std::tuple"]
            if len(ts) != 2:
                raise AnalysisError("the members of a scope are not the ones known")
            a, c = (fs[mw], fs[rt]) if mw != rt and mw in fs and rt in fs else ts
            return ("scope", path_of(ty), self.field(ty, "std::shared_ptr", st, loc), self.read(mw, st, loc + (("f", a),)),
                    self.read(rt, st, loc + (("f", c),)))
        if unq(ty).startswith(MINE + "wrapped"):
            return ("wrapped",) + tuple(self.read(f["t"], st, loc + (("f", f["n"]),)) for f in r["fields"])
        if b.endswith("web::routable"):
            t = targs(ty)[0]
            f = [x["n"] for x in r["fields"] if unq(x["t"]) == t]
            if len(f) != 1:
                raise AnalysisError("the members of a routable are not the ones known")
            return ("routable", self.field(ty, "path_matcher", st, loc), self.field(ty, "verb", st, loc),
                    self.field(ty, "state_storage", st, loc), self.read(t, st, loc + (("f", f[0]),)))
        raise AnalysisError("an object of type %s" % ty)

    def field(self, ty, base, st, loc):
        n = self.only(ty, base)
        t = next(f["t"] for f in self.p.rec_by_type[unq(ty)]["fields"] if f["n"] == n)
        return self.read(t, st, loc + (("f", n),))

    def handler_of(self, ty):
        h = targs(ty)[2]
        fs = [f["n"] for f in self.p.rec_by_type[unq(ty)]["fields"] if unq(f["t"]) == h]
        if len(fs) != 1:
            raise AnalysisError("the members of a route are not the ones known")
        return fs[0]

    def map_value(self, p, st):
        if p is None or p.loc is None:
            return "null"
        rest, k = self.state(st, p.loc)
        e = st.mem.get(self.kv(p.loc)) if k else None
        if rest == "none" and not k:
            return ("none", None)
        return (p.loc if rest == "rest" else "none", e)

    # ---- operations
    def e_DeclRefExpr(self, e, st):
        if "tpo" in e:
            return [(st, Ref((("tpo", e["tpo"]),)))]
        return States.e_DeclRefExpr(self, e, st)

    def opq_copy(self, s, this, a, e, i=0):
        v = self.held(a, s)
        if v == Tok("movedaway"):
            self.complain(e, "uses an object that was moved away")
        s.mem[this] = v
        if self.rvalue(e, i) and isinstance(a, Ref):
            s.mem[a.loc] = Tok("movedaway")

    def rvalue(self, e, i):
        a = (e or {}).get("args") or []
        return i < len(a) and a[i] is not None and a[i].get("lv") == 2

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        if self.opaque(ty) and not unq(ty).endswith("&") and len(args) == 1:
            s = st.copy()
            self.lty[loc] = unq(ty)
            s.mem[loc] = self.held(args[0], s)
            return [s]
        if is_route(ty) and len(args) == 1 and isinstance(args[0], Ref):
            s = st.copy()
            self.copy_obj(args[0].loc, loc, s)
            self.lty[loc] = unq(ty)
            return [s]
        return States.make(self, ty, loc, args, atys, st, e, rvalue)

    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n"), fn.get("qn", ""), unq(fn.get("rec", "") or "")
        b = sq(rec)
        if this is not None and this[0][0] == "tpo" and len(this) == 1:
            t = this[0][1]
            if n.startswith("operator ") or n == "view":
                return [(st, Str(t))]
            if n == "size":
                return [(st, Lin(len(t)))]
            raise AnalysisError("%s() of a pattern" % n)
        if self.opaque(rec) and this is not None:
            if n.startswith("~"):
                return [(st, VOID)]
            if n == "operator=" or fn.get("dk") == "CXXConstructor" and len(args) == 1:
                s = st.copy()
                self.opq_copy(s, this, args[0], e, len(args) - 1 if n != "operator=" else len(e.get("args", [])) - 1)
                return [(s, Ref(this))]
        if rec.startswith(MINE) and n == "operator()" and this is not None:
            s = st.copy()
            if rec.startswith(MINE + "wrapped"):
                v = self.read(rec, s, this)
            else:
                v = self.held(Ref(this), s)
            s.mem[SERVED] = Tok("served", s.mem.get(SERVED, Tok("served", ())).k[1] + ((v, self.held(args[0], s) if args else None),))
            t = self.tmp(MINE + "res")
            s.mem[t] = Tok("opq", MINE + "res", "of the service")
            return [(s, Ref(t))]
        if b.endswith("web::path_matcher") and this is not None:
            if n.startswith("~"):
                return [(st, VOID)]
            s = st.copy()
            if len(args) == 1:
                w = self.held(args[0], s) if isinstance(args[0], Ref) and args[0].loc[0][0] != "tpo" and args[0].loc in s.mem else None
                if isinstance(w, Tok) and w.k[:1] == ("matcher",):
                    self.opq_copy(s, this, args[0], e, len(e.get("args", [])) - 1)
                    return [(s, Ref(this))]
                v = self.as_text(args[0], s)
                if isinstance(v, Str):
                    s.mem[this] = Tok("matcher", v.s)
                    return [(s, Ref(this))]
            raise AnalysisError("a matcher made of something unknown")
        if q.startswith("std::tuple_cat"):
            return [self.cat(st, args, e)]
        if q.startswith("std::apply") and len(args) == 2 and isinstance(args[1], Ref):
            k = st.mem.get(args[1].loc + (("get", "n"),))
            if k is None:
                raise AnalysisError("a tuple of unknown contents")
            return self.call_value(args[0], [Ref(args[1].loc + (("get", i),)) for i in range(k.c)], st, e)
        if n == "make_unique" or n == "make_shared" and "state" not in e.get("t", "") and "unordered_map" not in e.get("t", ""):
            ty = targs(unq(e.get("t", "")))[0]
            self.made += 1
            l = (("made", self.made),)
            self.lty[l] = self.dyn[l] = ty
            return [(s, Ptr(l)) for s in self.make(ty, l, list(args), [self.argty(e, i) for i in range(len(args))], st, e)]
        if "unique_ptr" in b and this is not None:
            return self.owner(n, st, this, args, e)
        r = States.hook_call(self, fn, st, this, args, e)
        if r and b in ("std::tuple", "std::any") and fn.get("dk") == "CXXConstructor":
            for s, _ in r:              # what it was made of, if given away
                for i, a in enumerate(args):
                    if self.rvalue(e, i) and isinstance(a, Ref) and isinstance(s.mem.get(a.loc), Tok) and self.opaque(self.argty(e, i)):
                        s.mem[a.loc] = Tok("movedaway")
        return r

    def owner(self, n, st, this, args, e):
        if n.startswith("~"):
            return [(st, VOID)]
        if n in ("unique_ptr", "operator="):
            s = st.copy()
            p = self.ptr(args[0], s) if args else Ptr(None)
            if p is None:
                raise AnalysisError("an owning pointer of something unknown")
            s.mem[this] = p
            if args:
                self.moved(s, args[0], e)
            return [(s, Ref(this))]
        p = self.ptr(Ref(this), st)
        if p is None:
            raise AnalysisError("an owning pointer of unknown value")
        if n in ("operator->", "operator*", "get"):
            if p.loc is None:
                self.complain(e, "uses a null pointer")
                return []
            return [(st, Ref(p.loc) if n == "operator*" else p)]
        if n == "operator bool":
            return [(st, TRUE if p.loc is not None else FALSE)]
        raise AnalysisError("%s() of an owning pointer" % n)

    def invoke(self, fn, this, args, st, e, ctor=False):
        """a call through a pointer to a base class reaches the object's own function"""
        if this is not None and not ctor and this in self.dyn and fn.get("dk") == "CXXMethod":
            t = unq(self.dyn[this])
            if t != unq(fn.get("rec", "") or ""):
                own = [f for f in self.p.fns.values() if unq(f.get("rec", "") or "") == t and f.get("n", f["sqn"].split("::")[-1]) ==
                       fn["n"] and len(f["params"]) == len(args)]
                if len(own) == 1:
                    return self.call_body(own[0], this, args, st, e)
        return States.invoke(self, fn, this, args, st, e, ctor)

    def cat(self, st, args, e):
        s = st.copy()
        ty = unq(e.get("t", ""))
        t = self.tmp(ty)
        ts = [x for x in targs(ty) if x]
        k = 0
        for i, a in enumerate(args):
            c = s.mem.get(a.loc + (("get", "n"),)) if isinstance(a, Ref) else None
            if c is None:
                raise AnalysisError("a tuple of unknown contents")
            for j in range(c.c):
                src, dst = a.loc + (("get", j),), t + (("get", k),)
                if k >= len(ts):
                    raise AnalysisError("a tuple of unknown type %s %d" % (ty, k))
                self.copy_obj(src, dst, s)
                self.lty[dst] = ts[k]
                if any(v == Tok("movedaway") for x, v in s.mem.items() if x[:len(dst)] == dst):
                    self.complain(e, "uses an object that was moved away")
                if self.rvalue(e, i) and a.loc[0][0] != "t":
                    for x, v in list(s.mem.items()):
                        if x[:len(src)] == src and isinstance(v, Tok) and v.k[:1] == ("opq",):
                            s.mem[x] = Tok("movedaway")
                k += 1
        s.mem[t + (("get", "n"),)] = Lin(k)
        return (s, Ref(t))


def begin(prog, rep, shape):
    it = Comp(prog, rep)
    it.wrong, it.name, it.shape, it.dyn = [], KEY, shape, {}
    it.size = sym(("n", "rest"))
    st = St()
    st = it.assume_le(st, Lin(1) - it.size) or st      # a map with other entries has some
    return it, st


SHAPES = [{"own": o, "map": m} for o in ((), (False,), (True,), (True, False), (False, True)) for m in ("empty", "has", "other")]


def args_of(it, st, f):
    out = []
    for i, p in enumerate(f["params"]):
        l = (("ext", "arg%d" % i),)
        t = unq(p["t"])
        if t.rstrip("& ").endswith("http::verb"):
            out.append(sym(("verb", "arg")))
            continue
        it.made_of(t.rstrip("& "), ("arg%d" % i,), st, l)
        out.append(Ref(l))
    return out


def where(v, st):
    while isinstance(v, Ref) and isinstance(st.mem.get(v.loc), Ref):
        v = st.mem[v.loc]
    return v.loc if isinstance(v, Ref) else None


def front(own, e):
    """the storage own with an object in front: by what lookups give"""
    return ("front", e, own)


def run(it, f, st, args, this):
    it.run_setup()
    return it.run(f, args, st, this)


def same_states(got, want):
    """want: a tuple of maps, or ("front", entry, maps)"""
    if want[:1] != ("front",):
        return got == want
    e, own = want[1:]
    # the object is the first found, and everything else is found as before
    if not got or next((x[1] for x in got if x[1] is not None), None) != e:
        return False
    rest = [x for x in got if x != ("none", e)]
    if len(rest) == len(got):
        return False            # put into a map with other entries: other storages may share it
    return tuple(rest) == own


def same(got, want):
    if isinstance(want, tuple) and want[:1] == ("route",) and isinstance(got, tuple) and got[:1] == ("route",):
        names = ("kind", "pattern", "method", "states", "middlewares", "handler")
    elif isinstance(want, tuple) and want[:1] == ("scope",) and isinstance(got, tuple) and got[:1] == ("scope",):
        names = ("kind", "prefix", "states", "middlewares", "routes")
    elif isinstance(want, tuple) and want[:1] == ("routable",) and isinstance(got, tuple) and got[:1] == ("routable",):
        names = ("kind", "pattern", "method", "states", "service")
    else:
        return None if got == want else "result"
    for n, a, b in zip(names, got, want):
        if n == "states" and isinstance(b, tuple) and names[0] == "kind" and want[0] != "scope":
            if not same_states(a, b):
                return n
        elif n == "routes":
            if len(a) != len(b):
                return "number of routes"
            for x, y in zip(a, b):
                w = same(x, y)
                if w:
                    return "%s of a route" % w
        elif a != b:
            return n
    return None


def lent(f, args):
    """the arguments that stay the caller's"""
    return [a for p, a in zip(f["params"], args) if p["t"].rstrip().endswith("&") and not p["t"].rstrip().endswith("&&")
            and isinstance(a, Ref)]


def judge(rep, it, f, label, res, thr, want, this_value=None, this_ty=None, kept=()):
    n = 0
    for e, msg in it.wrong:
        rep.violation(label + ":type", f, e.get("l"), "%s() %s" % (label, msg.replace("name", "type")))
    for s, v in res:
        n += 1
        l = where(v, s)
        if l is None:
            raise facts.AnalysisError("what %s() returns is not recognised" % label)
        w = same(it.read(f["ret"].rstrip("& "), s, l), want)
        if w:
            rep.violation(label + ":" + w.split()[0], f, None, "%s(): the %s of the result is not the one it must be" % (label, w))
        if any(s.mem.get(a.loc) == Tok("movedaway") for a in kept):
            rep.violation(label + ":moves", f, None, "%s() moves away an object that stays its caller's" % label)
        if this_value is not None:
            try:
                left = it.read(this_ty, s, PLACE)
            except facts.AnalysisError:
                left = None
            if left is not None and same(left, this_value):
                rep.violation(label + ":changes", f, None, "%s() changes the object it is called on" % label)
    for s, x in thr:
        n += 1
        rep.violation(label + ":throw", f, None, "%s() throws" % label)
    flush(rep, it, f["sqn"])
    return n


def rebound(path, mws, maps, r):
    """route r below a scope"""
    return ("route", path + r[1], r[2], r[3] + tuple(m for m in (maps,) if m != ("none", None)), mws + r[4], r[5])


def makers(rep, prog):
    n = 0
    verbs = {}
    for f in prog.fns.values():
        m = re.fullmatch(r"verb_(\w+)", f["sqn"].split("::")[-1])
        if m:
            it, st = begin(prog, rep, {})
            (s, v), = it.run(f, [], st, None)[0]
            verbs[m.group(1)] = v
    for name in list(verbs) + ["handle"]:
        for f in fns(prog, "web::route::" + name):
            it, st = begin(prog, rep, {})
            args = args_of(it, st, f)
            want = ("route", path_of(f["ret"]), verbs.get(name, sym(("verb", "arg"))), (), (),
                    it.held(args[-1], st))
            res, thr = run(it, f, st, args, None)
            n += judge(rep, it, f, "route::" + name, res, thr, want, kept=lent(f, args))
            rep.analysed(f)
    for f in fns(prog, "web::scope", 0):
        it, st = begin(prog, rep, {})
        res, thr = run(it, f, st, [], None)
        n += judge(rep, it, f, "scope", res, thr, ("scope", path_of(f["ret"]), ("none", None), (), ()))
        rep.analysed(f)
    rep.obligation("new routes and scopes compared", n)


def route_ops(rep, prog):
    n = 0
    for f in prog.fns.values():
        label = f["sqn"].split("::")[-1]
        R = unq(f.get("rec", "") or "")
        if not is_route(R) or label not in ("use_state", "use", "rebind_parent", "build"):
            continue
        for shape in SHAPES:
            if label in ("use", "build") and shape["map"] != "empty":
                continue
            it, st = begin(prog, rep, shape)
            it.made_of(R, ("self",), st, PLACE)
            args = args_of(it, st, f)
            r = it.read(R, st, PLACE)
            vals = [it.read(unq(p["t"]).rstrip("& "), st, a.loc) for p, a in zip(f["params"], args)]
            if label == "use_state":
                want = r[:3] + (front(r[3], vals[0]),) + r[4:]
            elif label == "use":
                want = r[:4] + (r[4] + (vals[0],),) + r[5:]
            elif label == "rebind_parent":
                want = rebound(parent_of(f, R), vals[1], vals[0], r)
            else:
                x = r[5]
                for m in reversed(r[4] + tuple(vals)):
                    x = ("wrapped", m, x)
                want = ("routable", Tok("matcher", r[1]), r[2], r[3], x)
            res, thr = run(it, f, st, args, PLACE)
            n += judge(rep, it, f, "route::" + label, res, thr, want, r, R, lent(f, args))
        rep.analysed(f)
    rep.obligation("derived routes compared", n)


def parent_of(f, R):
    p = path_of(f["ret"])
    own = path_of(R)
    ta = [x for x in f.get("targs", []) if "{{{" in x]
    return path_of(ta[0]) if ta else p[:len(p) - len(own)]


def scope_ops(rep, prog):
    n = 0
    for f in prog.fns.values():
        label = f["sqn"].split("::")[-1]
        R = unq(f.get("rec", "") or "")
        if not is_scope(R) or label not in ("use_state", "use", "serve", "routes"):
            continue
        for shape in SHAPES:
            if len(shape["own"]) > 1:
                continue
            it, st = begin(prog, rep, shape)
            it.made_of(R, ("self",), st, PLACE)
            args = args_of(it, st, f)
            c = it.read(R, st, PLACE)
            vals = [it.read(unq(p["t"]).rstrip("& "), st, a.loc) for p, a in zip(f["params"], args)]
            keep = (c, R)
            if label == "use_state":
                keep = (None, None)         # the map may be shared, as documented
                want = None
            elif label == "use":
                want = c[:3] + (c[3] + (vals[0],), c[4])
            elif label == "routes":
                want = c[4]
            else:
                new = [vals[0]] if vals[0][0] == "route" else list(vals[0][4])
                want = c[:4] + (c[4] + tuple(rebound(c[1], c[3], c[2], r) for r in new),)
            res, thr = run(it, f, st, args, PLACE)
            if want is not None:
                n += judge(rep, it, f, "scope::" + label, res, thr, want, *keep, kept=lent(f, args))
                continue
            for s, v in res:
                n += 1
                g = it.read(f["ret"], s, where(v, s))
                w = same(g[:2] + g[3:], c[:2] + c[3:])
                if w:
                    rep.violation("scope::use_state:keeps", f, None, "use_state() of a scope changes its prefix, middlewares or routes")
                if g[2] == "null" or g[2][1] != vals[0]:
                    rep.violation("scope::use_state:state", f, None, "use_state() of a scope does not store the object under its type")
                elif c[2][0] != "none" and g[2][0] != c[2][0]:
                    rep.violation("scope::use_state:others", f, None, "use_state() of a scope loses states of other types")
            for s, x in thr:
                rep.violation("scope::use_state:throw", f, None, "use_state() of a scope throws")
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    rep.obligation("derived scopes compared", n)


def erased(rep, prog):
    """what a route is once it is built, and once its type is forgotten"""
    n = 0
    for f in prog.fns.values():
        label = f["sqn"].split("::")[-1]
        R = unq(f.get("rec", "") or "")
        b = sq(R)
        if not (b.endswith("web::routable") or b.endswith("web::any_routable")) or label not in (
                "method", "matcher", "states", "service", "operator()"):
            continue
        for g in [x for x in prog.fns.values() if sq(unq(x.get("rec", "") or "")).endswith("web::any_routable") and x.get("kind") == "ctor"
                  and len(x["params"]) == 1 and sq(unq(x["params"][0]["t"]).rstrip("& ")).endswith("web::routable")] \
                if b.endswith("any_routable") else [None]:
            it, st = begin(prog, rep, {"own": (True,)})
            T = R if g is None else unq(g["params"][0]["t"]).rstrip("& ")
            at = PLACE if g is None else (("ext", "routable"),)
            fill_routable(it, T, st, at)
            v0 = it.read(T, st, at)
            sts = [st]
            it.run_setup()
            if g is not None:
                it.lty[PLACE] = R
                sts = [s for s, _ in it.run(g, [Ref(at)], st, PLACE)[0]]
            for st1 in sts:
                args = []
                if label == "operator()":
                    st1.mem[(("ext", "req"),)] = Tok("opq", MINE + "req", "the request")
                    it.lty[(("ext", "req"),)] = MINE + "req"
                    args = [Ref((("ext", "req"),))]
                res, thr = it.run(f, args, st1, PLACE)
                for s, v in res:
                    n += 1
                    l = where(v, s)
                    if label == "operator()":
                        sv = s.mem.get(SERVED, Tok("served", ())).k[1]
                        if sv != ((v0[4], Tok("opq", MINE + "req", "the request")),):
                            rep.violation("erased:serve", f, None, "a request is not handed over to the service of the route, once")
                        elif it.held(v, s) != Tok("opq", MINE + "res", "of the service"):
                            rep.violation("erased:answer", f, None, "the answer of the service is not the one given")
                        continue
                    want = dict(zip(("matcher", "method", "states", "service"), v0[1:]))[label]
                    ret = unq(f["ret"]).rstrip("& ")
                    got = it.read(ret if label != "service" else targs(T)[0], s, l) if l is not None else v
                    if got != want:
                        rep.violation("erased:" + label, f, None, "%s() of a built route does not give the route's own" % label)
                for s, x in thr:
                    rep.violation("erased:throw", f, None, "%s() of a built route throws" % label)
                flush(rep, it, f["sqn"])
        rep.analysed(f)
    rep.obligation("built routes compared", n)


def fill_routable(it, T, st, at):
    it.lty[at] = T
    for f in it.p.rec_by_type[T]["fields"]:
        l = at + (("f", f["n"]),)
        t = unq(f["t"])
        it.lty[l] = t
        if sq(t).endswith("path_matcher"):
            st.mem[l] = Tok("matcher", "the pattern")
        elif t == targs(T)[0]:
            fill_service(it, t, st, l, ())
        else:
            it.made_of(t, (f["n"],), st, l)


def fill_service(it, t, st, l, tag):
    it.lty[l] = t
    if t.startswith(MINE + "wrapped"):
        for f in it.p.rec_by_type[t]["fields"]:
            fill_service(it, unq(f["t"]), st, l + (("f", f["n"]),), tag + (f["n"],))
    else:
        it.made_of(t, tag, st, l)


def types(rep, prog):
    witness.check(rep, "compose_types", "C16")


PARTS = {"makers": makers, "routes": route_ops, "scopes": scope_ops, "erased": erased, "types": types}


def main(rep):
    prog = facts.load("compose")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("results", sum(n for k, n in rep.obl if "compared" in k), 30)


if __name__ == "__main__":
    report.run("C16", "abstract interpretation of composed routes and scopes; type-level witnesses",
               "a composed route has the joined pattern, its method, handler, states and middlewares, outermost first", main)
