"""C15: which route a request reaches."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from absint import Out  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from states import States  # noqa: E402
from strs import flush  # noqa: E402

PLACE = (("ext", "self"),)
CALLS = (("gh", "calls"),)
ID = (("id",),)
PUNCT = frozenset(b".[{}()\\*+?|^$")           # what a Boost regex reads as syntax
ESCAPABLE = frozenset(b"!\"#%&,-./:;=@[]{}()\\*+?|^$~_ ") - frozenset(b"_ ")
SLASH = frozenset(b"/")


def value_of(prog, en, name):
    for q, x in prog.enums.items():
        if q.endswith(en):
            for v in x["vals"]:
                if v[0] == name:
                    return int(v[1])
    raise facts.AnalysisError("no enumerator %s::%s" % (en, name))


class Tree(States):
    """One node of the tree, its children known only by the text that leads to them.

    Operations on other nodes are not entered: they are recorded, and may succeed or fail.
    Routes are opaque; a set of routes by method says whether it has one for the method asked
    for ("m") and one for any method ("any").
    """

    def node_fields(self):
        r = next((x for k, x in self.p.rec_by_type.items() if sq(k).endswith("router::node") and not k.endswith("&")), None)
        if r is None:
            raise facts.AnalysisError("the nodes of the router are not found")
        fs = r["fields"]
        t = lambda x: sq(unq(x["t"]))
        pick = lambda p: [x["n"] for x in fs if p(t(x))]
        pre, seq, par = pick(lambda x: x in TXT), pick(lambda x: x == "std::vector"), pick(lambda x: x == "std::unique_ptr")
        maps = pick(lambda x: x in MAPS)
        if [len(pre), len(seq), len(par), len(maps), len(fs)] != [1, 1, 1, 2, 5]:
            raise facts.AnalysisError("the members of a node are not the ones known")
        wild = [x for x in maps if "wild" in x] or maps[1:]
        self.f = {"prefix": pre[0], "statics": seq[0], "params": par[0], "wild": wild[0],
                  "routes": [x for x in maps if x != wild[0]][0]}
        self.node_ty = r["t"] if "t" in r else [k for k, x in self.p.rec_by_type.items() if x is r][0]

    def fl(self, l, w):
        return l + (("f", self.f[w]),)

    def is_node(self, rec):
        return rec.endswith("router::node")

    # ---- children
    def items(self, s, l):
        out = []
        for i in range(self.seq(s, l)):
            p = self.slot(l, i)
            out.append({k[len(p):]: v for k, v in s.mem.items() if k[:len(p)] == p})
        return out

    def fill(self, s, l, items):
        self.clear(l, s)
        s.mem[l] = Tok("seq", len(items))
        self.lty[l] = "std::vector<node>"
        for i, it in enumerate(items):
            p = self.slot(l, i)
            self.lty[p] = self.node_ty
            for k, v in it.items():
                s.mem[p + k] = v
        return s

    def take(self, s, l):
        """the contents of the node at l, which is left moved from"""
        d = {k[len(l):]: v for k, v in s.mem.items() if k[:len(l)] == l}
        if not d:
            raise AnalysisError("a node of unknown contents")
        self.clear(l, s)
        s.mem[l + ID] = Tok("moved")
        s.mem[self.fl(l, "prefix")] = Str("")
        return d

    def ident(self, s, l):
        t = s.mem.get(l + ID)
        return t.k[1] if isinstance(t, Tok) and t.k[0] == "id" else "moved" if t == Tok("moved") else "new"

    def seq_op(self, n, k, fn, st, this, args, e):
        ety = (targs(unq(fn.get("rec", ""))) or [""])[0]
        if k is None and not sq(unq(ety)).endswith("router::node"):
            return None
        if k is not None and isinstance(st.mem.get(this), Tok) and st.mem[this].k[0] != "seq":
            return None
        if n in ("push_back", "emplace_back") and len(args) == 1:
            s = st.copy()
            a = args[0]
            if isinstance(a, Ref) and a.loc and self.base(self.lty.get(a.loc, self.argty(e, 0))).endswith("router::node"):
                d = self.take(s, a.loc)
                self.fill(s, this, self.items(s, this) + [d])
                return [(s, Ref(self.slot(this, k)) if n == "emplace_back" else VOID)]
            if n == "emplace_back":
                l = self.tmp(self.node_ty)
                ctor = [f for f in self.p.fns.values() if self.is_node(sq(unq(f.get("rec", "") or ""))) and f.get("kind") == "ctor"
                        and len(f["params"]) == 1 and self.base(f["params"][0]["t"]) in TXT]
                if len(ctor) != 1:
                    raise AnalysisError("a node made in an unknown way")
                out = []
                for s2, _ in self.call_body(ctor[0], l, [a], s, e, True):
                    s2 = s2.copy()
                    d = self.take(s2, l)
                    self.fill(s2, this, self.items(s2, this) + [d])
                    out.append((s2, Ref(self.slot(this, k))))
                return out
            raise AnalysisError("an unknown node")
        if n in ("insert", "emplace", "resize", "vector") and args:
            raise AnalysisError("%s() on a list of nodes" % n)
        return States.seq_op(self, n, k, fn, st, this, args, e)

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        if len(args) == 1 and self.base(ty).endswith("router::node") and isinstance(args[0], Ref):
            s = st.copy()
            d = self.take(s, args[0].loc)
            for k, v in d.items():
                s.mem[loc + k] = v
            self.lty[loc] = self.node_ty
            return [s]
        return States.make(self, ty, loc, args, atys, st, e, rvalue)

    def text_in(self, s, d, k):
        """the text that the contents d of a node have at k"""
        l = self.tmp("std::basic_string<char>")
        s = s.copy()
        for x, v in d.items():
            if x[:len(k)] == k:
                s.mem[l + x[len(k):]] = v
        return self.content(Ref(l), s)

    # ---- calls
    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n"), fn.get("qn", ""), sq(unq(fn.get("rec", "") or ""))
        if self.is_node(rec) and this is not None:
            if n == "node" and len(args) == 1 and isinstance(args[0], Ref) and self.argty(e, 0) and \
                    self.base(self.argty(e, 0)).endswith("router::node") or n == "operator=":
                s = st.copy()
                d = self.take(s, args[0].loc)
                self.clear(this, s)
                for k, v in d.items():
                    s.mem[this + k] = v
                return [(s, Ref(this))]
            if n.startswith("~"):
                return [(st, VOID)]
            if n != "node" and fn.get("kind") != "ctor":
                r = self.node_call(n, fn, st, this, args, e)
                if r is not None:
                    return r
        if rec.endswith("any_routable") and this is not None:
            return self.route_op(n, st, this, args, e)
        if this == (("matcher",),) and n == "tokens":
            return [(st, Ref((("tokens",),)))]
        if this == (("tokens",),):
            return self.token_op(n, st, args, e)
        if n == "make_error_code" and len(args) == 1:
            t = self.tmp("std::error_code")
            s = st.copy()
            s.mem[t] = Tok("ec", args[0] if isinstance(args[0], Lin) else self.load(args[0].loc, "int", st), self.argty(e, 0))
            return [(s, Ref(t))]
        if n == "error_code" and rec == "std::error_code" and len(args) == 1 and this is not None:
            w = st.mem.get(args[0].loc) if isinstance(args[0], Ref) else None
            if isinstance(w, Tok) and w.k[0] == "ec":
                s = st.copy()
                s.mem[this] = w
                return [(s, Ref(this))]
        if n == "make_unique" and self.is_node(sq(unq(targs(unq(e.get("t", "")))[0]))):
            if args:
                raise AnalysisError("a node made in an unknown way")
            self.made += 1
            l = (("made", self.made),)
            self.lty[l] = self.node_ty
            return [(s, Ptr(l)) for s in self.make(self.node_ty, l, [], [], st, e)]
        if "unique_ptr" in rec and this is not None:
            if n == "unique_ptr":
                s = st.copy()
                s.mem[this] = self.ptr(args[0], s) if args and self.ptr(args[0], s) is not None else Ptr(None)
                return [(s, Ref(this))]
            if n.startswith("~"):
                return [(st, VOID)]
            p = self.ptr(Ref(this), st)
            if p is None and n != "operator=":
                raise AnalysisError("an owning pointer of unknown value")
            if n in ("operator->", "operator*", "get"):
                if p.loc is None and n != "get":
                    self.complain(e, "uses a null pointer")
                    return []
                return [(st, Ref(p.loc) if n == "operator*" else p)]
            if n == "operator bool":
                return [(st, TRUE if p.loc is not None else FALSE)]
            if n in ("operator=", "reset"):
                s = st.copy()
                s.mem[this] = self.ptr(args[0], s) if args and not isinstance(args[0], Tok) else Ptr(None)
                if s.mem[this] is None:
                    raise AnalysisError("an owning pointer of unknown value")
                return [(s, Ref(this) if n == "operator=" else VOID)]
        m = st.mem.get(this) if this is not None else None
        if isinstance(m, Tok) and m.k[0] == "vmap" or (n in ("unordered_map", "map") and "any_routable" in q + (fn.get("rec", "") or "")):
            return self.vmap_op(n, fn, st, this, args, e)
        if rec in ("std::multimap", "std::map") and this is not None and self.order_op(n, fn, st, this, args, e):
            return self.order_op(n, fn, st, this, args, e)
        if n in ("sort", "stable_sort") and ("std::" in q):
            return [(st, VOID)]             # the order of the children decides nothing
        its = [st.mem.get(a.loc) if isinstance(a, Ref) else a for a in ([Ref(this)] if this is not None else []) + list(args)]
        its = [a for a in its if isinstance(a, Tok) and a.k[:1] == ("vit",)]
        if its:
            r = self.vit_op(n, its, fn, st, this, args, e)
            if r is not None:
                return r
        return States.hook_call(self, fn, st, this, args, e)

    def record(self, s, *x):
        s.mem[CALLS] = Tok("calls", s.mem[CALLS].k[1] + (x,))

    def node_call(self, n, fn, st, this, args, e):
        """a call on a node: opaque unless it is the node analysed, doing its own step"""
        d = self.p.fns.get(fn.get("id")) or fn
        ps = [self.base(p["t"]) for p in d.get("params", [])]
        sig = tuple("route" if p.endswith("any_routable") else "text" if p in TXT else "verb" if p.endswith("verb") else
                    "num" if p in ("unsigned long", "std::size_t", "size_t") else "?" for p in ps)
        kind = {("route", "num"): "insert", ("route",): "insert", ("route", "text", "num"): "static", ("verb", "text"): "find",
                (): "optimize"}.get(sig)
        if sig == () and "size_t" not in unq(d.get("ret", "")) and "long" not in d.get("ret", ""):
            kind = None
        if kind is None:
            if this != PLACE:
                raise AnalysisError("an operation on another node: %s()" % n)
            return None
        num = self.pos(args[-1], st) if "num" in sig else Lin(0)
        if this == PLACE and not (kind in ("insert", "static") and num != self.at):
            return None
        if self.proto.get(kind, n) != n:
            raise AnalysisError("an operation on another node: %s()" % n)
        if kind == "optimize":
            s = st.copy()
            self.record(s, kind, self.where(s, this))
            return [(s, sym(self.fresh("count", "unsigned long")))]
        rty = unq(d["ret"])
        out = []
        c = len(st.mem[CALLS].k[1])
        for ok in (True, False):
            s = st.copy()
            t = self.tmp(rty)
            self.vset(t, s, "some" if ok else "none")
            if kind == "find":
                tag = ("found", self.where(s, this), c)
                s.mem[t + (("val",),)] = Ref((tag,))
                v = self.content(args[1], s)
                self.record(s, kind, self.where(s, this), self.method(args[0], s), v, tag if ok else None)
            else:
                r = self.route(args[0], s, e)
                v = self.content(args[1], s) if kind == "static" else None
                self.record(s, kind, self.where(s, this), r, v, num, ok)
            if not ok:
                s.mem[t + (("err",),)] = Tok("ec", c, "call") if kind != "find" else Tok("ec", Lin(self.noroute), "error")
            out.append((s, Ref(t)))
        return out

    def where(self, s, l):
        if l == PLACE:
            return "self"
        p = self.ptr(Ref(self.fl(PLACE, "params")), s)
        if p is not None and p.loc == l:
            return "param" if s.mem.get(l + ID) is not None else "newparam"
        return self.ident(s, l)

    def method(self, v, st):
        if isinstance(v, Ref):
            v = self.load(v.loc, "int", st)
        if v == self.M:
            return "m"
        if isinstance(v, Lin) and v.const and v.c == self.any:
            return "any"
        if isinstance(v, Lin) and v.const:
            return "other"
        raise AnalysisError("an unknown method")

    def key_of(self, v, st):
        k = self.method(v, st)
        return "m" if k == "any" and self.M == Lin(self.any) else k

    def route(self, v, st, e):
        t = st.mem.get(v.loc) if isinstance(v, Ref) else v
        if t == Tok("movedroute"):
            self.complain(e, "uses a route that was moved away")
            return None
        if not (isinstance(t, Tok) and t.k[:1] == ("route",)):
            raise AnalysisError("an unknown route")
        return t.k[1]

    def route_op(self, n, st, this, args, e):
        if n == "any_routable" or n == "operator=":
            s = st.copy()
            r = self.route(args[0], s, e)
            s.mem[this] = Tok("route", r)
            if isinstance(args[0], Ref):
                s.mem[args[0].loc] = Tok("movedroute")
            return [(s, Ref(this))]
        if n.startswith("~"):
            return [(st, VOID)]
        self.route(Ref(this), st, e)
        if n == "method":
            return [(st, self.M)]
        if n == "matcher":
            return [(st, Ref((("matcher",),)))]
        raise AnalysisError("%s() of a route" % n)

    def token_op(self, n, st, args, e):
        k = self.ntok
        if n in ("size", "empty"):
            return [(st, Lin(k) if n == "size" else FALSE)]
        if n in ("operator[]", "at", "back", "front"):
            i = self.pos(args[0], st) if args else Lin(0 if n == "front" else k - 1)
            if not i.const:
                raise AnalysisError("a token at an unknown place")
            if not 0 <= i.c < k:
                self.complain(e, "reads a token that is not there")
                return []
            return [(st, Ref((("tokens",), ("slot", i.c))))]
        raise AnalysisError("%s() on the tokens" % n)

    # ---- routes by method
    def vmap_op(self, n, fn, st, this, args, e):
        s = st.copy()
        if n in ("unordered_map", "map"):
            if args:
                raise AnalysisError("routes made of something unknown")
            s.mem[this] = Tok("vmap", frozenset())
            return [(s, Ref(this))]
        if n.startswith("~"):
            return [(st, VOID)]
        has = st.mem[this].k[1]
        ent = lambda k: this + (("ent", k),)
        if n in ("end", "cend"):
            return [(st, Tok("vit", this, "end"))]
        if n in ("find", "contains", "count", "at"):
            k = self.key_of(args[0], st)
            if k == "other":
                raise AnalysisError("a lookup of another method")
            if n == "find":
                return [(st, Tok("vit", this, k if k in has else "end"))]
            if n == "contains":
                return [(st, TRUE if k in has else FALSE)]
            if n == "count":
                return [(st, Lin(1 if k in has else 0))]
            if k not in has:
                self.throw(s, Exc("std::out_of_range", e))
                return []
            return [(st, Ref(ent(k) + (("get", 1),)))]
        if n in ("try_emplace", "emplace", "insert", "insert_or_assign"):
            if len(args) == 1 and isinstance(args[0], Ref) and st.mem.get(args[0].loc + (("get", "n"),)) == Lin(2):
                args = [Ref(args[0].loc + (("get", i),)) for i in (0, 1)]
            if len(args) != 2:
                raise AnalysisError("%s() of something unknown" % n)
            k = self.key_of(args[0], st)
            new = k not in has
            if new or n == "insert_or_assign":
                r = self.route(args[1], s, e)
                s.mem[this] = Tok("vmap", has | {k})
                s.mem[ent(k) + (("get", 1),)] = Tok("route", r)
                s.mem[args[1].loc] = Tok("movedroute")
            t = self.tmp("std::pair<iterator, bool>")
            s.mem[t + (("get", "n"),)] = Lin(2)
            s.mem[t + (("get", 0),)] = Tok("vit", this, k)
            s.mem[t + (("get", 1),)] = TRUE if new else FALSE
            return [(s, Ref(t))]
        if n in ("empty", "size"):
            if n == "size":
                return [(st, sym(self.fresh("routes", "unsigned long")))]
            return [(st, FALSE)] if has else [(st, TRUE), (s, FALSE)]
        raise AnalysisError("%s() on routes" % n)

    def vit_op(self, n, its, fn, st, this, args, e):
        i = its[0]
        if n in ("operator==", "operator!=") and len(its) == 2:
            if its[0].k[1] != its[1].k[1]:
                self.complain(e, "compares positions of different sets of routes")
                return []
            return [(st, TRUE if (its[0] == its[1]) == (n == "operator==") else FALSE)]
        if n in ("operator->", "operator*"):
            if i.k[2] == "end":
                self.complain(e, "reads the entry past the end")
                return []
            l = i.k[1] + (("ent", i.k[2]),)
            return [(st, Ptr(l) if n == "operator->" else Ref(l))]
        if "iterator" in (n or "") and this is not None and len(args) == 1:
            s = st.copy()
            s.mem[this] = i
            return [(s, Ref(this))]
        return None

    def order_op(self, n, fn, st, this, args, e):
        """the children put in some order for a while"""
        ts = targs(unq(fn.get("rec", "")))
        if len(ts) < 2 or not sq(unq(ts[1])).endswith("router::node"):
            return None
        s = st.copy()
        if n in ("multimap", "map"):
            s.mem[this] = Tok("seq", 0, "order")
            return [(s, Ref(this))]
        if n.startswith("~"):
            return [(st, VOID)]
        k = self.seq(st, this)
        if n in ("insert", "emplace"):
            if sq(unq(fn.get("rec", ""))) == "std::map" and k:
                # an equal key may be there already: the new child is dropped
                return [(s, VOID)]
            if len(args) == 1 and isinstance(args[0], Ref) and st.mem.get(args[0].loc + (("get", "n"),)) == Lin(2):
                src = args[0].loc + (("get", 1),)
            elif len(args) == 2 and isinstance(args[1], Ref):
                src = args[1].loc
            else:
                raise AnalysisError("an unknown node")
            d = self.take(s, src)
            p = self.slot(this, k) + (("get", 1),)
            for x, v in d.items():
                s.mem[p + x] = v
            self.lty[p] = self.node_ty
            s.mem[this] = Tok("seq", k + 1, "order")
            return [(s, VOID)]
        return None

    # ---- one text starting with another
    def whole(self, v):
        return isinstance(v, V) and v.lo == Lin(0) and v == self.texts.get(v.root)

    def sw(self, a, b):
        return (("gh", "sw", a, b),)

    def known_sw(self, s, a, b):
        return s.mem.get(self.sw(a, b))

    def starts(self, v, x, st):
        """(states where text v starts with text x, states where not)"""
        if v == x:
            return [st], []
        if not (self.whole(v) and self.whole(x)):
            raise AnalysisError("whether some part of a text starts with another")
        k = self.known_sw(st, v.root, x.root)
        if k is not None:
            return ([st], []) if k is TRUE else ([], [st])
        y, n = st.copy(), st.copy()
        y.mem[self.sw(v.root, x.root)] = TRUE
        n.mem[self.sw(v.root, x.root)] = FALSE
        y = self.assume_le(y, x.n - v.n)
        if y is not None and not self.consistent(y):
            y = None
        # equal lengths and the other way round known: the same text
        if self.known_sw(st, x.root, v.root) is TRUE and self.entails(st, v.n - x.n) and self.entails(st, x.n - v.n):
            n = None
        elif self.known_sw(st, x.root, v.root) is TRUE:
            n = self.assume_le(n, v.n - x.n + 1)         # v is the shorter one
        return [y] if y is not None else [], [n] if n is not None else []

    def consistent(self, s):
        """no child's text is the beginning of another child's"""
        ch = self.kids
        for i in ch:
            for j in ch:
                if i == j:
                    continue
                if self.known_sw(s, i, j) is TRUE:
                    return False
                for t in self.texts:
                    if t in ch:
                        continue
                    a, b = self.known_sw(s, t, i), self.known_sw(s, t, j)
                    if a is TRUE and b is TRUE:
                        return False
                    if a is TRUE and self.known_sw(s, j, t) is TRUE:
                        return False
        return True

    def view_op(self, n, v, this, st, args, e):
        if n == "starts_with":
            x = self.txt(args[0], st)
            if isinstance(x, V):
                t, f = self.starts(v, x, st)
                return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        if n == "erase" and args and this is not None:
            a = [self.pos(x, st) for x in args]
            ln = self.length(v)
            c = a[1] if len(a) > 1 else Lin(NPOS)
            if a[0] == Lin(0) and isinstance(v, V) and self.entails(st, c - ln):
                s = st.copy()
                self.put(this, V(v.root, v.lo + c, v.hi), s)
                return [(s, Ref(this))]
            raise AnalysisError("erase() of a text")
        return States.view_op(self, n, v, this, st, args, e)

    def text_eq(self, a, b, st):
        if isinstance(a, V) and isinstance(b, V) and a.root != b.root:
            if self.whole(b) and not self.whole(a):
                a, b = b, a
            if self.whole(a) and isinstance(b, V) and b.lo == Lin(0) and not self.whole(b) and b.root in self.texts and self.same(st, b.hi, a.n):
                t, f = self.starts(self.texts[b.root], a, st)
                return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
            if self.whole(a) and self.whole(b):
                out = []
                t, f = self.branch(st, self.cmp_lin("==", a.n - b.n))
                for s in t:
                    for x in self.starts(a, b, s)[0]:
                        y = x.copy()
                        y.mem[self.sw(b.root, a.root)] = TRUE
                        out.append((y, TRUE))
                    out += [(x, FALSE) for x in self.starts(a, b, s)[1]]
                return out + [(s, FALSE) for s in f]
        return States.text_eq(self, a, b, st)

    def same_text(self, st, a, b):
        return same_view(self, st, a, b)

    def other_range(self, n, rl, st):
        k = self.seq(st, rl)
        if k is not None and st.mem[rl].k[2:] == ("order",):
            out, cur = Out(), [st]
            vloc = (("v", self.frames[-1].fid, n["var"]["id"]),)
            for i in range(k):
                nxt = []
                for s in cur:
                    s = s.copy()
                    s.mem[vloc] = Ref(self.slot(rl, i))
                    for b, j in zip(n["var"].get("binds") or [], (0, 1)):
                        s.mem[(("v", self.frames[-1].fid, b["id"]),)] = Ref(self.slot(rl, i) + (("get", j),))
                    o = self.ex(n["body"], s)
                    nxt += o.n + o.c
                    out.n += o.b
                cur = nxt
            out.n += cur
            return out
        if k is not None:
            st = st.copy()
            self.lty[self.slot(rl, 0)] = self.node_ty
        return States.other_range(self, n, rl, st)


def begin(prog, rep, kids=0, params=False, routes=(), wild=(), method="m"):
    it = Tree(prog, rep)
    it.wrong = []
    it.name = None
    it.node_fields()
    it.proto = {}
    it.any = 0            # the method that stands for any
    it.noroute = value_of(prog, "web::error", "route_not_exists")
    it.exists = value_of(prog, "web::error", "route_already_exists")
    st = St()
    it.size = Lin(0)
    it.at, it.ntok = Lin(0), 0
    if method == "m":
        it.M = sym(it.fresh("method", "unsigned int"))
        st = it.assume_le(st, Lin(it.any + 1) - it.M)
    else:
        it.M = Lin(it.any)
    it.lty[PLACE] = it.node_ty
    it.texts = {}
    it.kids = []
    st.mem[CALLS] = Tok("calls", ())
    st.mem[it.fl(PLACE, "prefix")] = it.text("own", st)
    st.mem[PLACE + ID] = Tok("id", "self")
    for w, has in (("routes", routes), ("wild", wild)):
        l = it.fl(PLACE, w)
        st.mem[l] = Tok("vmap", frozenset(has))
        for k in has:
            st.mem[l + (("ent", k), ("get", 1))] = Tok("route", (w, k))
    items = []
    for i in range(kids):
        t = it.text("child%d" % i, st, 1)
        it.texts[t.root] = t
        it.kids.append(t.root)
        items.append({ID: Tok("id", i), (("f", it.f["prefix"]),): t})
    it.fill(st, it.fl(PLACE, "statics"), items)
    p = (("kid", "param"),)
    it.lty[p] = it.node_ty
    st.mem[it.fl(PLACE, "params")] = Ptr(p if params else None)
    if params:
        st.mem[p + ID] = Tok("id", "param")
    it.run_setup()
    return it, st


def calls(s):
    return s.mem[CALLS].k[1]


def result(it, s, v):
    """("route", what) / ("error", number)"""
    l = v.loc if isinstance(v, Ref) else None
    k = it.vstate(l, s) if l is not None else None
    if k == "some":
        w = s.mem.get(l + (("val",),))
        return "ok", (w.loc if isinstance(w, Ref) else None)
    if k == "none":
        x = l + (("err",),)
        w = s.mem.get(x)
        while isinstance(w, Ref):
            w = s.mem.get(w.loc)
        if isinstance(w, Tok) and w.k[0] == "ec":
            return "error", w
    raise facts.AnalysisError("what the call gives is not recognised")


def public(prog, name, kinds):
    return [f for f in fns(prog, "web::router::node::" + name, len(kinds)) if
            [sq(unq(p["t"]).rstrip("& ")).split("::")[-1] for p in f["params"]] == kinds]


def lookup(rep, prog):
    """one step of a lookup"""
    n = 0
    for f in public(prog, "try_find", ["verb", "basic_string_view"]):
        bad = False
        for method in ("m", "any"):
            sets = [(), ("m",), ("any",), ("m", "any")] if method == "m" else [(), ("m",)]
            for kids in range(3):
                for params in (False, True):
                    for wild in sets:
                        for routes in sets if (kids, params) == (1, False) else [("m",)]:
                            it, st = begin(prog, rep, kids, params, routes, wild, method)
                            it.proto = {"find": "try_find"}
                            p = it.text("path", st)
                            it.texts[p.root] = p
                            res, thr = it.run(f, [it.M, p], st, PLACE)
                            for s, v in res:
                                n += 1
                                bad |= step(rep, it, f, st, s, v, p, routes, wild, params)
                            for s, x in thr:
                                rep.violation("find:throw", f, None, "a lookup may throw")
                            flush(rep, it, f["sqn"])
                            if bad:
                                break
        rep.analysed(f)
    rep.obligation("lookup steps compared", n)


def step(rep, it, f, st, s, v, p, routes, wild, params):
    got = result(it, s, v)
    cs = calls(s)
    bad = []

    def say(key, msg):
        bad.append(1)
        rep.violation("find:" + key, f, None, msg)
    if changed(it, st, s):
        say("const", "a lookup changes the node")
        return True
    for c in cs:
        if c[2] != "m":
            say("method", "a child is asked for another method")
            return True

    def here(have, w):
        for k in ("m", "any"):
            if k in have:
                return ("ok", it.fl(PLACE, w) + (("ent", k), ("get", 1)))
        return None

    def check(s, want, why):
        if want is None:
            if got[0] != "error" or not isinstance(got[1].k[1], Lin) or got[1].k[1] != Lin(it.noroute):
                say("none", "a lookup does not say that no route exists when %s" % why)
        elif got != want:
            say("which", "a lookup gives %s though %s" % ("nothing" if got[0] == "error" else "another route", why))

    def asked(s, who, rest):
        """the outcome of the one call made to a child; None if it was not asked"""
        for c in cs:
            if c[1] == who and same_view(it, s, c[3], rest):
                return [c[4]]
        return None
    full, more = empty(it, s, p)
    for x in full:
        check(x, here(routes, "routes") or here(wild, "wild"), "the path ends here")
    for x in more:
        match = [r for r in it.kids if it.known_sw(x, p.root, r) is TRUE]
        open_ = [r for r in it.kids if it.known_sw(x, p.root, r) is None]
        want, done = None, False
        if match:
            i = it.kids.index(match[0])
            o = asked(x, i, V(p.root, it.texts[match[0]].n, p.hi))
            if o is None:
                say("static", "a literal child that matches is not asked for what follows its text")
                return True
            want = ("ok", (o[0],)) if o[0] else None
        elif open_:
            say("static", "a literal child is not tried")
            return True
        if want:
            check(x, want, "a literal child has the route")
            continue
        a, b = it.split_char(x, p.root, p.lo, SLASH)
        for y in a:
            check(y, here(wild, "wild"), "only a wildcard can match an empty segment")
        for y in b:
            if not params:
                check(y, here(wild, "wild"), "no child has a route")
                continue
            for z, pos in it.find_model(y, p, SLASH):
                rest = Str("") if pos == Lin(NPOS) else V(p.root, p.lo + pos, p.hi)
                o = asked(z, "param", rest)
                if o is None:
                    say("param", "the parameter is not tried for exactly one segment")
                    return True
                check(z, ("ok", (o[0],)) if o[0] else here(wild, "wild"), "the parameter %s" % ("has the route" if o[0] else "has none"))
    return bool(bad)


def changed(it, st, s):
    keep = lambda m: {k: v for k, v in m.items() if k[:1] == PLACE and k != PLACE + ID}
    return keep(st.mem) != keep(s.mem)


def insertion(rep, prog):
    """one step of an insertion"""
    n = 0
    first = public(prog, "try_insert", ["any_routable"])
    if len(first) != 1:
        raise facts.AnalysisError("no function that adds a route")
    # the step it starts with
    it, st = begin(prog, rep)
    st.mem[(("ext", "route"),)] = Tok("route", "new")
    it.ntok, it.at = 1, Lin(-1)
    res, thr = it.run(first[0], [Ref((("ext", "route"),))], st, PLACE)
    rep.analysed(first[0])
    for s, v in res:
        cs = calls(s)
        if len(cs) != 1 or cs[0][:3] != ("insert", "self", "new") or cs[0][4] != Lin(0) or not passed(it, s, v, cs[0]):
            rep.violation("insert:start", first[0], None, "adding a route does not start at its first token")
    flush(rep, it, first[0]["sqn"])
    kind = {k: value_of(prog, "path_token_kind", k) for k in ("static_", "param", "wildcard")}
    mains = [f for f in fns(prog, "web::router::node::try_insert", 2)] or \
        [f for f in prog.fns.values() if f["sqn"].startswith("web::router::node::") and f.get("body") and len(f["params"]) == 2
         and f["n"] == "try_insert"]
    if len(mains) != 1:
        raise facts.AnalysisError("no function that adds a route below a node")
    f = mains[0]
    cases = [(0, "static_"), (1, "static_"), (0, "param"), (1, "param"), (1, "wildcard"), (2, None)]
    for at, k in cases:
        for method in ("m", "any"):
            sets = [(), ("m",), ("any",), ("m", "any")] if method == "m" else [(), ("m",)]
            where = "wild" if k == "wildcard" else "routes"
            for have in sets if k in ("wildcard", None) else [()]:
                for kids in range(3) if k == "static_" else [1]:
                    for params in (False, True):
                        it, st = begin(prog, rep, kids, params, have if where == "routes" else ("any",), have if where == "wild" else ("m",), method)
                        n += one(rep, it, st, f, at, k, kind, where, have, params, None)
    for g in [x for x in prog.fns.values() if x["sqn"].startswith("web::router::node::") and x.get("body") and len(x["params"]) == 3
              and sq(unq(x["params"][1]["t"]).rstrip("& ")) in TXT and sq(unq(x["params"][0]["t"]).rstrip("& ")).endswith("any_routable")]:
        for kids in range(3):
            for at in (0, 1):
                it, st = begin(prog, rep, kids, True)
                n += one(rep, it, st, g, at, "static_", kind, "routes", (), True, True)
        rep.analysed(g)
    rep.analysed(f)
    rep.obligation("insertion steps compared", n)


def passed(it, s, v, c):
    """the outcome of call c is what is returned"""
    got = result(it, s, v)
    if c[-1]:
        return got[0] == "ok"
    return got[0] == "error" and got[1].k[2] == "call" and calls(s)[got[1].k[1]] == c


def one(rep, it, st, f, at, k, kind, where, have, params, rem):
    n = 0
    it.ntok, it.at = 2, Lin(at)
    it.proto = {"insert": "try_insert"}
    r = (("ext", "route"),)
    st.mem[r] = Tok("route", "new")
    tok = it.text("token", st, None if rem else 1)
    it.texts[tok.root] = tok
    recs = [x for q, x in it.p.rec_by_type.items() if q.endswith("web::path_token_t")]
    fs = {("kind" if "kind" in x["t"] else "value"): x["n"] for x in recs[0]["fields"]}
    for i in (0, 1):
        l = (("tokens",), ("slot", i))
        st.mem[l + (("f", fs["kind"]),)] = Lin(kind[k] if i == at else kind["static_" if i == 0 else "param"])
        st.mem[l + (("f", fs["value"]),)] = tok if i == at else it.text("token%d" % i, st, 1)
    args = [Ref(r)] + ([tok] if rem else []) + [Lin(at)]
    res, thr = it.run(f, args, st, PLACE)
    for s, x in thr:
        rep.violation("insert:throw", f, None, "adding a route may throw")
    for s, v in res:
        n += 1
        msg = judge(it, st, s, v, at, k, where, have, params, tok)
        if msg:
            rep.violation("insert:%s" % (k or "end"), f, None, "adding a route whose %s: %s" % (
                "next token is %s" % {"static_": "literal text", "param": "a parameter", "wildcard": "a wildcard"}[k] if k else "pattern ends here", msg))
    flush(rep, it, f["sqn"])
    return n


def judge(it, st, s, v, at, k, where, have, params, tok):
    cs = calls(s)
    if k in ("wildcard", None):
        if cs:
            return "another node is changed"
        l = it.fl(PLACE, where)
        if "m" in have:
            g = result(it, s, v)
            if changed(it, st, s):
                return "the route there was is changed"
            return None if g[0] == "error" and g[1].k[1] == Lin(it.exists) else "a second route for the same pattern and method is not refused"
        mine = {x: y for x, y in s.mem.items() if x[:1] == PLACE and x != PLACE + ID}
        key = l + (("ent", "m"), ("get", 1))
        want = {x: y for x, y in st.mem.items() if x[:1] == PLACE and x != PLACE + ID}
        want[l] = Tok("vmap", frozenset(have) | {"m"})
        want[key] = Tok("route", "new")
        if mine != want:
            return "the route is not stored there under its method"
        return None if result(it, s, v)[0] == "ok" else "the route is refused"
    if len(cs) != 1:
        return "it is not handed to exactly one node" if cs else "it is not handed on"
    c = cs[0]
    if c[2] != "new":
        return "another route is handed on"
    if not passed(it, s, v, c):
        return "the outcome is not what adding it further down gave"
    lists = it.items(s, it.fl(PLACE, "statics")), it.items(st, it.fl(PLACE, "statics"))
    rest = {x: y for x, y in st.mem.items() if x[:1] == PLACE and x[:2] != it.fl(PLACE, "statics")[:2] and x != it.fl(PLACE, "params")}
    if any(s.mem.get(x) != y for x, y in rest.items()):
        return "other parts of the node are changed"
    p0, p1 = st.mem[it.fl(PLACE, "params")], s.mem[it.fl(PLACE, "params")]
    if k == "param":
        if lists[0] != lists[1]:
            return "the literal children are changed"
        if params and p0 != p1:
            return "the parameter's node is replaced"
        if c[0] != "insert" or c[1] != ("param" if params else "newparam") or c[4] != Lin(at + 1):
            return "it is not handed to the parameter's node with the next token"
        return None
    if p0 != p1:
        return "the parameter's node is changed"
    for x in empty(it, s, tok)[0]:
        if c[0] != "insert" or c[1] != "self" or c[4] != Lin(at + 1) or lists[0] != lists[1]:
            return "after the whole text the next token is not added at this node"
    for x in empty(it, s, tok)[1]:
        inside = [r for r in it.kids if it.known_sw(x, tok.root, r) is TRUE]
        if inside:
            i = it.kids.index(inside[0])
            if lists[0] != lists[1]:
                return "the literal children are changed though one already leads there"
            if c[0] == "static" and c[1] == i and c[4] == Lin(at) and same_view(it, x, c[3], V(tok.root, it.texts[inside[0]].n, tok.hi)):
                continue
            if c[0] == "insert" and c[1] == i and c[4] == Lin(at + 1) and it.entails(x, tok.n - it.texts[inside[0]].n):
                continue
            return "it is not handed, with what is left of the text, to the child that leads there"
        undone = [r for r in it.kids if it.known_sw(x, tok.root, r) is None]
        if undone:
            return "a literal child that may lead there is not looked at"
        m = made(it, x, lists[0], tok, c, at)
        if m:
            return m
    return None


def made(it, s, items, tok, c, at):
    """a new child takes over the children that continue its text"""
    ids = [x.get(ID) for x in items]
    new = [x for x in items if not isinstance(x.get(ID), Tok)]
    old = [x.get(ID).k[1] for x in items if isinstance(x.get(ID), Tok) and x[ID].k[0] == "id"]
    if len(new) > 1:
        raise facts.AnalysisError("several new nodes")
    if not new:
        return "no child is added for the text"
    new = new[0]
    if Tok("moved") in ids:
        return "a child that was moved away stays in the list"
    pk = (("f", it.f["prefix"]),)
    if not same_view(it, s, it.text_in(s, new, pk), tok):
        return "the new child's text is not the one to add"
    if c[0] != "insert" or c[1] != "new" or c[4] != Lin(at + 1):
        return "the next token is not added at the new child"
    sl = (("f", it.f["statics"]),)
    t = new.get(sl)
    if not (isinstance(t, Tok) and t.k[0] == "seq"):
        raise facts.AnalysisError("the children of the new node are not known")
    below = []
    for i in range(t.k[1]):
        o = sl + (("slot", i),)
        d = new.get(o + ID)
        if not (isinstance(d, Tok) and d.k[0] == "id"):
            return "a child that was moved away stays in the list"
        below.append((d.k[1], it.text_in(s, new, o + pk)))
    for i, r in enumerate(it.kids):
        t = it.texts[r]
        k = it.known_sw(s, r, tok.root)
        if old.count(i) + [x for x, _ in below].count(i) != 1:
            return "a child is lost or doubled"
        if k is None:
            # not looked at: which of the two it is was not decided
            return "whether a child continues the text is not looked at: it may be shadowed"
        if k is TRUE and i in old:
            return "a child that continues the text is not moved below it and is shadowed"
        if k is FALSE and i not in old:
            return "a child that does not continue the text is moved below it"
        if k is TRUE and not same_view(it, s, dict(below)[i], V(r, tok.n, t.hi)):
            return "the text of a child moved below is not cut by the text above it"
        if k is FALSE:
            o = next(x for x in items if x.get(ID) == Tok("id", i))
            if not same_view(it, s, it.text_in(s, o, pk), t):
                return "the text of a child is changed"
    return None


def reorder(rep, prog):
    """optimising keeps everything reachable"""
    n = 0
    for f in public(prog, "optimize", []):
        for kids in range(3):
            for params in (False, True):
                it, st = begin(prog, rep, kids, params, ("m",), ("any",))
                it.proto = {"optimize": "optimize"}
                res, thr = it.run(f, [], st, PLACE)
                for s, v in res:
                    n += 1
                    a, b = [sorted(it.items(x, it.fl(PLACE, "statics")), key=repr) for x in (s, st)]
                    if a != b:
                        rep.violation("optimize:children", f, None, "optimising loses or changes a literal child")
                    rest = {x: y for x, y in st.mem.items() if x[:1] == PLACE and x[:2] != it.fl(PLACE, "statics")[:2]}
                    if any(s.mem.get(x) != y for x, y in rest.items()):
                        rep.violation("optimize:rest", f, None, "optimising changes more than the order of the children")
                for s, x in thr:
                    rep.violation("optimize:throw", f, None, "optimising may throw")
                flush(rep, it, f["sqn"])
        rep.analysed(f)
    rep.obligation("reorderings compared", n)


def forward(rep, prog):
    """the router asks its root"""
    n = 0
    for name, kind in (("try_find", "find"), ("try_insert", "insert")):
        for f in fns(prog, "web::router::" + name):
            it, st = begin(prog, rep)
            it.proto = {kind: name}
            r = it.p.rec_by_type.get(unq(f["rec"]))
            root = (("router",), ("f", r["fields"][0]["n"])) if r and len(r["fields"]) == 1 else None
            if root is None:
                raise facts.AnalysisError("the members of the router are not the ones known")
            st.mem[root + ID] = Tok("id", "root")
            st.mem[(("ext", "route"),)] = Tok("route", "new")
            p = it.text("path", st)
            res, thr = it.run(f, [it.M, p] if kind == "find" else [Ref((("ext", "route"),))], st, (("router",),))
            for s, v in res:
                n += 1
                cs = calls(s)
                ok = len(cs) == 1 and cs[0][:3] == (kind, "root", "m" if kind == "find" else "new")
                if ok and kind == "find":
                    g = result(it, s, v)
                    ok = same_view(it, s, cs[0][3], p) and (g == ("ok", (cs[0][4],)) if cs[0][4] else g[0] == "error")
                elif ok:
                    ok = passed(it, s, v, cs[0])
                if not ok:
                    rep.violation("router:" + name, f, None, "%s() does not give what the root of the tree gives" % name)
            flush(rep, it, f["sqn"])
            rep.analysed(f)
    rep.obligation("forwarded calls compared", n)


EM = (("gh", "emitted"),)
PAIRS = (("gh", "pairs"),)
TOKENS = (("ext", "tokens"),)


class Matcher(States):
    """Text that grows is known by what is added to it for each token and each character."""

    def out(self, s, v):
        s.mem[EM] = Tok("em", s.mem[EM].k[1] + (v,))

    def emitted(self, v, st, ae):
        c = self.txt(self.content(v, st), st)
        if isinstance(c, Ref):
            c = self.load(c.loc, "char", st)
        if isinstance(c, Lin) and c.const:
            return [Str(chr(c.c & 255))]
        if isinstance(c, Cat):
            return list(c.parts)
        if isinstance(c, (Str, V)):
            return [c]
        if isinstance(c, U):
            return [c]
        raise AnalysisError("adding something unknown to a text: %r %r" % (v, c))

    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n"), fn.get("qn", ""), sq(unq(fn.get("rec", "") or ""))
        if rec == "std::basic_string" and this is not None and n in ("operator+=", "append", "push_back") and this == self.acc(st, this):
            s = st.copy()
            if n == "append" and len(args) == 2 and not isinstance(self.content(args[0], st), (Str, V)):
                k = self.pos(args[0], st)
                if not k.const or not 0 <= k.c < 8:
                    raise AnalysisError("adding an unknown number of characters")
                new = self.emitted(args[1], st, e) * k.c
            elif len(args) == 1:
                new = self.emitted(args[0], st, e)
            else:
                raise AnalysisError("%s() with several arguments" % n)
            for x in new:
                self.out(s, x)
            return [(s, Ref(this))]
        if rec.endswith("basic_regex") and this is not None:
            if n == "basic_regex":
                if not args:
                    return [(st, Ref(this))]
                s = st.copy()
                src = args[0].loc if isinstance(args[0], Ref) else None
                t = s.mem.get(src)
                if not (isinstance(t, Tok) and t.k[0] == "regex"):
                    if src is None or self.acc(st, src) != src:
                        raise AnalysisError("an expression made of something unknown")
                    for a in args[1:]:
                        k = self.pos(a, st)
                        if not k.const:
                            raise AnalysisError("an expression with unknown options")
                        if k.c >> 20 & 1:
                            self.complain(e, "builds an expression that ignores case")
                    t = Tok("regex")
                s.mem[this] = t
                return [(s, Ref(this))]
            if n == "operator=":
                s = st.copy()
                s.mem[this] = s.mem.get(args[0].loc, Tok("unknown"))
                return [(s, Ref(this))]
            if n.startswith("~"):
                return [(st, VOID)]
        if n in ("regex_match", "regex_search") and "boost::" in q:
            if n == "regex_search":
                self.complain(e, "accepts a path a part of which matches")
                return []
            m = [a for a in args if isinstance(a, Ref) and a.loc != self.re]
            if not any(isinstance(a, Ref) and a.loc == self.re for a in args):
                raise AnalysisError("a match with another expression")
            v = self.content(m[0], st)
            if not same_view(self, st, v, self.input):
                self.complain(e, "matches something else than the whole path")
                return []
            y = st.copy()
            for a in m[1:]:
                y.mem[a.loc] = Tok("groups")
            return [(y, TRUE), (st.copy(), FALSE)]
        if this is not None and isinstance(st.mem.get(this), Tok) and st.mem[this].k[0] == "groups":
            if n in ("operator[]", "str"):
                k = self.content(args[0], st)
                if isinstance(k, (V, Str)):
                    return [(st, Tok("group", k))]
            if n.startswith("~"):
                return [(st, VOID)]
            raise AnalysisError("%s() on the groups" % n)
        if "match_results" in rec and n == "match_results" or n == "~match_results":
            return [(st, Ref(this))]
        g = this is not None and st.mem.get(this)
        if isinstance(g, Tok) and g.k[0] == "group":
            if n == "str" or "operator basic_string" in n or "operator std::basic_string" in n:
                return [(st, g)]
        if rec == "std::basic_string" and n == "basic_string" and this is not None and args:
            a = args[0]
            g = st.mem.get(a.loc) if isinstance(a, Ref) else a
            if isinstance(g, Tok) and g.k[0] == "group":
                s = st.copy()
                s.mem[this] = g
                return [(s, Ref(this))]
        if rec == "std::vector" and "std::pair" in (fn.get("rec", "") or "") and this is not None:
            s = st.copy()
            if n == "vector":
                s.mem[this] = s.mem.get(args[0].loc, Tok("pairs")) if args and isinstance(args[0], Ref) else Tok("pairs")
                return [(s, Ref(this))]
            if n.startswith("~") or n == "reserve":
                return [(st, VOID)]
            if n == "empty":
                return [(st, TRUE), (s, FALSE)]
            if n == "size":
                return [(st, sym(self.fresh("given", "unsigned long")))]
            if n in ("emplace_back", "push_back"):
                if len(args) == 1 and isinstance(args[0], Ref) and st.mem.get(args[0].loc + (("get", "n"),)) == Lin(2):
                    args = [Ref(args[0].loc + (("get", i),)) for i in (0, 1)]
                if len(args) != 2:
                    raise AnalysisError("an unknown pair")
                p = []
                for a in args:
                    g = st.mem.get(a.loc) if isinstance(a, Ref) else a
                    p.append(g if isinstance(g, Tok) and g.k[0] == "group" else self.content(a, st))
                s.mem[PAIRS] = Tok("em", s.mem[PAIRS].k[1] + (tuple(p),))
                return [(s, Ref(this) if n == "emplace_back" else VOID)]
            raise AnalysisError("%s() on the parameters" % n)
        return States.hook_call(self, fn, st, this, args, e)

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        if self.base(ty) == "std::vector" and len(args) == 1 and isinstance(args[0], Ref) and st.mem.get(args[0].loc) == Tok("pairs"):
            s = st.copy()
            s.mem[loc] = Tok("pairs")
            return [s]
        if self.base(ty) == "std::basic_string" and len(args) == 1:
            g = st.mem.get(args[0].loc) if isinstance(args[0], Ref) else args[0]
            if isinstance(g, Tok) and g.k[0] == "group":
                s = st.copy()
                s.mem[loc] = g
                return [s]
        return States.make(self, ty, loc, args, atys, st, e, rvalue)

    def acc(self, st, l):
        """the text that grows: the one local that is added to"""
        if self.grow is None and l[0][0] == "v" and self.content(Ref(l), st) == Str(""):
            self.grow = l
        return self.grow

    def other_range(self, n, rl, st):
        while isinstance(st.mem.get(rl), Ref):
            rl = st.mem[rl].loc
        if rl != self.toks:
            return States.other_range(self, n, rl, st)
        vloc = (("v", self.frames[-1].fid, n["var"]["id"]),)
        out = Out()
        for kind, num in self.kinds.items():
            s = st.copy()
            s.mem[EM] = s.mem[PAIRS] = Tok("em", ())
            tl = self.toks + (("any", kind),)
            nm = self.text(kind, s, 1)
            self.lty[tl] = "fitoria::web::path_token_t"
            s.mem[tl + (("f", self.fs["kind"]),)] = Lin(num)
            self.put(tl + (("f", self.fs["value"]),), nm, s)
            self.lty[vloc] = unq(n["var"]["t"])
            if is_ref(n["var"]["t"]):
                s.mem[vloc] = Ref(tl)
            else:
                self.copy_obj(tl, vloc, s)
            o = self.ex(n["body"], s)
            for x in o.b:
                self.token(x, kind, nm, True)
            for x in o.n + o.c:
                self.token(x, kind, nm, False)
        s = st.copy()
        self.rounds += 1
        out.n.append(s)
        return out

    def char_loop(self, n, v, st):
        if (("gh", "in"),) in st.mem:
            raise AnalysisError("nested loops over characters")
        i = sym(self.fresh("at", "long"))
        s = self.assume_le(st, v.lo - i)
        s = self.assume_le(s, i - v.hi + 1)
        s = s.copy()
        before = s.mem[EM]
        s.mem[EM] = Tok("em", ())
        s.mem[(("gh", "in"),)] = TRUE
        vloc = (("v", self.frames[-1].fid, n["var"]["id"]),)
        self.lty[vloc] = unq(n["var"]["t"])
        if is_ref(n["var"]["t"]):
            s.mem[vloc] = Ref((("txt", v.root), ("i", i)))
        else:
            s.mem[vloc] = self.char_at(v.root, i, s)
        o = self.ex(n["body"], s)
        if o.b:
            self.faults.append("static text is cut short")
        for x in o.n + o.c:
            em = x.mem[EM].k[1]
            dom = self.dom_at(v.root, i, x)
            self.chars += 1
            last = em[-1] if em else None
            if not em or not (isinstance(last, U) and last == self.char_at(v.root, i, x)) and not (
                    isinstance(last, Str) and dom <= frozenset([ord(last.s)])):
                self.faults.append("a character of static text is lost or replaced")
            elif len(em) == 1:
                if dom & PUNCT:
                    self.faults.append("%r in static text is read as syntax" % chr(min(dom & PUNCT)))
            elif len(em) == 2 and em[0] == Str("\\"):
                if not dom <= ESCAPABLE:
                    self.faults.append("%r in static text is given a special meaning" % chr(min(dom - ESCAPABLE)))
            else:
                raise AnalysisError("an unknown spelling of static text")
        s = st.copy()
        s.mem[EM] = Tok("em", before.k[1] + (("chars", v),))
        return Out([s])

    def token(self, s, kind, nm, stop):
        if stop:
            self.faults.append("the tokens are not all looked at")
        em, ps = s.mem[EM].k[1], s.mem[PAIRS].k[1]
        self.seen.append(kind)
        if self.what == "match":
            want = () if kind == "static_" else ((nm, Tok("group", nm)),)
            ok = len(ps) == len(want) and all(same_view(self, s, a[0], b[0]) and isinstance(a[1], Tok) and same_view(
                self, s, a[1].k[1], nm) for a, b in zip(ps, want))
            if not ok:
                self.faults.append("the segment a %s matched is not given under its name" % kind if want else "static text is given as a parameter")
            return
        if kind == "static_":
            if em != (("chars", nm),):
                if any(isinstance(x, V) for x in em):
                    self.faults.append("static text is read as syntax")
                elif not em:
                    self.faults.append("static text is not required")
                else:
                    raise AnalysisError("an unknown spelling of static text")
            return
        exp = ""
        for x in em:
            if isinstance(x, Str):
                exp += x.s
            elif isinstance(x, V) and same_view(self, s, x, nm):
                exp += NAME
            elif isinstance(x, tuple) and x[0] == "chars":
                exp += NAME
            else:
                raise AnalysisError("an unknown spelling of a parameter")
        w = witness(kind, exp)
        if w is None:
            raise AnalysisError("an unknown spelling of a parameter: %s" % exp)
        if w:
            self.faults.append("a %s %s" % (kind, w))


NAME = "nm"
KNOWN = {"param": ("(?<nm>[^/]+)", "(?'nm'[^/]+)", "(?<nm>[^\\/]+)"), "wildcard": ("(?<nm>.*)", "(?'nm'.*)", "(?<nm>[\\s\\S]*)")}
SAMPLES = [chr(i) for i in range(256)] + ["", "ab", "a/b", "/a", "a/", "a.b", "a-b", "1a", "{a}", "x" * 70, "a\nb", "%20", "a b"]


def witness(kind, exp):
    """"" if exp is known to match what it should, a witness that it does not, or None"""
    import re
    import warnings
    if exp in KNOWN[kind]:
        return ""
    if NAME not in exp:
        return "has no group of its name"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = re.compile(re.sub(r"\(\?(?:<(\w+)>|'(\w+)')", lambda m: "(?P<%s>" % (m.group(1) or m.group(2)), exp), re.S)
    except (re.error, OverflowError):
        return "is not turned into an expression" if exp.count("(") != exp.count(")") or "(" not in exp else None
    if NAME not in r.groupindex:
        return "has no group of its name"
    for x in SAMPLES:
        m = r.fullmatch(x)
        want = x != "" and "/" not in x if kind == "param" else True
        if bool(m) != want:
            return "%s the text %r" % ("matches" if m else "does not match", x[:8])
        if m and m.group(NAME) != x:
            return "gives only a part of the text it matched"
    return None


def matching(rep, prog):
    """the expression a pattern is turned into, and what a match gives"""
    kinds = {k: value_of(prog, "path_token_kind", k) for k in ("static_", "param", "wildcard")}
    recs = [x for q, x in prog.rec_by_type.items() if q.endswith("web::path_token_t")]
    fs = {("kind" if "kind" in x["t"] else "value"): x["n"] for x in recs[0]["fields"]}
    r = prog.rec_by_type["fitoria::web::path_matcher"]
    fl = {}
    for x in r["fields"]:
        t = sq(unq(x["t"]))
        fl["re" if t.endswith("basic_regex") else "tokens" if t == "std::vector" else "text"] = x["n"]
    n = 0

    def go(f, what, args, this):
        it = Matcher(prog, rep)
        it.wrong = []
        it.name = None
        it.size = Lin(0)
        it.kinds, it.fs, it.what = kinds, fs, what
        it.faults, it.seen, it.chars, it.rounds, it.grow = [], [], 0, 0, None
        st = St()
        st.mem[EM] = st.mem[PAIRS] = Tok("em", ())
        it.toks = PLACE + (("f", fl["tokens"]),) if this else TOKENS
        it.re = PLACE + (("f", fl["re"]),)
        st.mem[it.re] = Tok("regex")
        st.mem[it.toks] = Tok("tokens")
        it.input = it.text("input", st)
        l = (("ext", "input"),)
        st.mem[l] = it.input
        it.lty[l] = "std::basic_string<char>"
        it.run_setup()
        res, thr = it.run(f, [Ref(l)] if what == "match" else args, st, this)
        for b in dict.fromkeys(it.faults):
            rep.violation("%s:%s" % (what, b), f, None, b)
        flush(rep, it, f["sqn"])
        rep.analysed(f)
        if it.rounds != (1 if what == "regex" else 1):
            raise facts.AnalysisError("the tokens are not walked once")
        return it, res

    gs = [f for f in prog.fns.values() if f["sqn"].startswith("web::path_matcher::") and f.get("body") and f["ret"].endswith("regex") or
          f["sqn"].startswith("web::path_matcher::") and f.get("body") and "basic_regex" in f["ret"]]
    for f in gs:
        it, res = go(f, "regex", [Ref(TOKENS)], None)
        n += it.chars + len(it.seen)
        for s, v in res:
            t = s.mem.get(v.loc) if isinstance(v, Ref) else v
            if t != Tok("regex"):
                raise facts.AnalysisError("what the pattern is turned into is not recognised")
    for f in fns(prog, "web::path_matcher::match", 1):
        it, res = go(f, "match", None, PLACE)
        n += len(it.seen)
        ks = []
        for s, v in res:
            k = it.vstate(v.loc, s) if isinstance(v, Ref) else None
            if k is None:
                raise facts.AnalysisError("what match() gives is not recognised")
            ks.append(k)
        if sorted(ks) != ["none", "some"]:
            rep.violation("match:result", f, None, "match() does not give the parameters exactly when the path matches")
    n += building(rep, prog, fl, gs)
    rep.obligation("tokens and characters compared", n)


class Builder(Matcher):
    """a matcher being made: the parser and the expression are opaque"""

    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n"), fn.get("qn", ""), sq(unq(fn.get("rec", "") or ""))
        if rec.endswith("path_parser") and this is not None:
            s = st.copy()
            if n == "path_parser":
                return [(st, Ref(this))]
            if n == "parse":
                if "true" not in fn.get("rec", "") and "true" not in q:
                    self.complain(e, "reads the pattern as if it were a path")
                    return []
                if not same_view(self, s, self.content(args[0], s), self.input):
                    self.complain(e, "parses something else than the pattern")
                    return []
                bad = self.throwing(s)
                s.mem[this] = Tok("parsed")
                return [(s, TRUE), (bad, FALSE)]
            if n == "get":
                if s.mem.get(this) != Tok("parsed"):
                    self.complain(e, "takes the tokens of a pattern that was not parsed")
                    return []
                t = self.tmp("tokens")
                s.mem[t] = Tok("tokens")
                return [(s, Ref(t))]
            if n.startswith("~"):
                return [(st, VOID)]
        if fn.get("id") in self.makers:
            t = st.mem.get(args[0].loc) if args and isinstance(args[0], Ref) else None
            if t != Tok("tokens"):
                self.complain(e, "makes the expression before the tokens are known")
                return []
            s = st.copy()
            r = self.tmp("boost::basic_regex<char>")
            s.mem[r] = Tok("regex")
            return [(s, Ref(r))]
        if rec == "std::vector" and "path_token_t" in (fn.get("rec", "") or "") and this is not None:
            s = st.copy()
            if n in ("vector", "operator="):
                if args and isinstance(args[0], Ref):
                    s.mem[this] = s.mem.get(args[0].loc, Tok("none"))
                elif n == "vector":
                    s.mem[this] = Tok("none")
                return [(s, Ref(this))]
            if n.startswith("~"):
                return [(st, VOID)]
        if rec == "std::system_error" and n == "system_error":
            return [(st, Ref(this))]
        if n == "make_error_code" or rec == "std::error_code":
            return [(st, Ref(this) if this is not None else Ref(self.tmp("std::error_code")))]
        return Matcher.hook_call(self, fn, st, this, args, e)

    def throwing(self, s):
        s = s.copy()
        s.mem[(("gh", "unparsed"),)] = TRUE
        return s


def building(rep, prog, fl, makers):
    n = 0
    for f in fns(prog, "web::path_matcher::path_matcher", 1, lambda x: sq(unq(x["params"][0]["t"]).rstrip("& ")) in TXT):
        it = Builder(prog, rep)
        it.wrong, it.name, it.size, it.grow = [], None, Lin(0), None
        it.toks, it.re = (("none",),), (("none",),)
        it.makers = {g["id"] for g in makers}
        st = St()
        it.lty[PLACE] = "fitoria::web::path_matcher"
        it.input = it.text("pattern", st)
        it.run_setup()
        res, thr = it.run(f, [it.input], st, PLACE)
        for s, v in res:
            n += 1
            if (("gh", "unparsed"),) in s.mem:
                rep.violation("matcher:bad", f, None, "a matcher is made of a pattern that does not parse")
            elif s.mem.get(PLACE + (("f", fl["tokens"]),)) != Tok("tokens") or s.mem.get(PLACE + (("f", fl["re"]),)) != Tok("regex"):
                rep.violation("matcher:made", f, None, "a matcher is made without the tokens or the expression of its pattern")
            elif not same_view(it, s, it.content(Ref(PLACE + (("f", fl["text"]),)), s), it.input):
                rep.violation("matcher:text", f, None, "a matcher does not keep its pattern")
        for s, x in thr:
            n += 1
            if (("gh", "unparsed"),) not in s.mem:
                rep.violation("matcher:throw", f, None, "a pattern that parses is refused")
        flush(rep, it, f["sqn"])
        rep.analysed(f)
    for name, k in (("pattern", "text"), ("tokens", "tokens")):
        for f in fns(prog, "web::path_matcher::" + name, 0):
            it = Builder(prog, rep)
            it.wrong, it.name, it.size, it.grow = [], None, Lin(0), None
            it.toks, it.re, it.makers = (("none",),), (("none",),), ()
            st = St()
            it.lty[PLACE] = "fitoria::web::path_matcher"
            l = PLACE + (("f", fl[k]),)
            it.input = it.text("pattern", st)
            if k == "text":
                it.put(l, it.input, st)
            it.run_setup()
            for s, v in it.run(f, [], st, PLACE)[0]:
                n += 1
                ok = isinstance(v, Ref) and v.loc == l if k == "tokens" else same_view(it, s, it.content(v, s), it.input)
                if not ok:
                    rep.violation("matcher:" + name, f, None, "%s() does not give the matcher's own" % name)
            rep.analysed(f)
    return n


PARTS = {"matching": matching, "lookup": lookup, "insertion": insertion, "reorder": reorder, "forward": forward}


def main(rep):
    prog = facts.load("router")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("steps", sum(n for k, n in rep.obl if "compared" in k), 30)


if __name__ == "__main__":
    report.run("C15", "abstract interpretation of one step of the tree, induction over its depth",
               "a lookup reaches the route whose pattern matches; adding a route hides no other one", main)
