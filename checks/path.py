"""C10: route patterns.

The parser is run in lock step with a reference automaton for the pattern grammar.  The
automaton follows the parser: at every loop head and exit it consumes the characters the
parser has moved past, and the tokens it emits must be the ones the parser has pushed.
"""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from hdr import boolean  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from strs import flush  # noqa: E402

PP = "web::path_parser"
ALPHA = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
DIGIT = frozenset(b"0123456789")
HEX = DIGIT | frozenset(b"abcdefABCDEF")
PCHAR = ALPHA | DIGIT | frozenset(b"-._~") | frozenset(b"!$&'()*+,;=") | frozenset(b":@")
EVERY = frozenset(range(256))
G, T0, K = [(("gh", x),) for x in ("at", "start", "count")]


def transitions(m, wild):
    """[(characters, next mode or None, what is emitted)]"""
    kind, flag, pct = m
    if pct:
        return [(HEX, (kind, flag, (pct + 1) % 3), None), (EVERY - HEX, None, None)]
    if kind == "static":          # flag: start / slash / other / after-parameter
        out = [(frozenset(b"/"), (kind, "slash", 0), None)]
        rest = frozenset(b"/")
        if flag == "slash":
            out.append((frozenset(b"{"), ("param", "empty", 0), "static_"))
            rest |= frozenset(b"{")
        if flag != "after":
            out += [(PCHAR, (kind, "other", 0), None), (frozenset(b"%"), (kind, "other", 1), None)]
            rest |= PCHAR | frozenset(b"%")
            if wild:
                out.append((frozenset(b"#"), ("wildcard", "empty", 0), "static_"))
                rest |= frozenset(b"#")
        return out + [(EVERY - rest, None, None)]
    out = [(PCHAR, (kind, "some", 0), None), (frozenset(b"%"), (kind, "some", 1), None)]
    rest = PCHAR | frozenset(b"%")
    if kind == "param" and flag == "some":
        out.append((frozenset(b"}"), ("static", "after", 0), "param"))
        rest |= frozenset(b"}")
    return out + [(EVERY - rest, None, None)]


def at_end(m):
    """(accepts, emits) at the end of the pattern"""
    kind, flag, pct = m
    if pct or kind == "param" or flag == "empty":
        return False, None
    if kind == "wildcard":
        return True, "wildcard"
    return True, "static_" if flag in ("slash", "other") else None


class Paths(Objs):
    """x: aut = mode of the automaton; ("rel", loc) = distance of a position from the automaton's"""
    deferred = True

    def defer_here(self, s):
        return "aut" in s.x

    def sink(self, st, vec, k, el, e):
        return [st]

    def say(self, key, msg):
        if not getattr(self, "quiet", 0):
            self.rep.violation("path:" + key, self.fn, None, "path_parser " + msg)

    # ---- the automaton
    def step(self, s):
        """consume one character (position known to be inside) -> states"""
        g = s.mem[G]
        d = self.dom_at(self.a.root, g, s)
        out = []
        for S, m, em in transitions(s.x["aut"], self.wild):
            if not d & S:
                continue
            t = s.copy()
            t.dom[("B", self.chsym(self.a.root, g, t))] = d & S
            out += self.take(t, m, em, g)
        return out

    def take(self, t, m, em, g):
        t.mem[G] = g + 1
        if m is None:
            t.x["aut"] = "err"
            return [t]
        if em:
            r = self.emit(t, em, V(self.a.root, t.mem[T0], g))
            if r is None:
                t.x["aut"] = "err"
                return [t]
            t = r
            t.mem[T0] = g + 1
        t.x["aut"] = m
        return [t]

    def dup(self, s, v):
        for k, val in s.facts.items():
            if isinstance(k, tuple) and k[0] == "dup" and same_view(self, s, k[1], v):
                return val
        return None

    def emit(self, s, kind, v):
        """the automaton has a token: it must be the next one the parser has pushed; None: the pattern is wrong"""
        self.cnt = getattr(self, "cnt", 0) + 1
        if kind != "static_":
            d = self.dup(s, v)
            if d is True:
                return None
            if d is None and not self.look:
                self.say("unique", "takes a name without making sure that no other parameter has it")
        if self.look:
            return s
        k = s.mem[K]
        el = self.vec + (("i", k),)
        s.mem[K] = k + 1
        if not self.entails(s, k + 1 - s.mem[self.vec + (("n",),)]):
            self.say("missing", "leaves out a %s token of the pattern" % kind.rstrip("_"))
            return s
        kv = self.load(el + (("f", self.fk),), self.kty, s)
        if not (isinstance(kv, Lin) and kv == self.kinds[kind]):
            self.say("kind", "gives a %s token another kind" % kind.rstrip("_"))
        tv = self.as_text(Ref(el + (("f", self.fv),)), s)
        if not same_view(self, s, tv, v):
            self.say("value", "gives a %s token a text that is not the one in the pattern" % kind.rstrip("_"))
        return s

    look = False

    def positions(self, s):
        for k, v in s.mem.items():
            if isinstance(v, Ptr) and v.loc and v.loc[0][0] == "txt" and v.off is not None and (k[0][0] != "t" or k[:1] == self.vec[:1]):
                yield k, v.off

    def catch_up(self, s):
        """consume what the parser has moved past"""
        if "aut" not in s.x or s.x["aut"] == "err":
            return [s]
        g = s.mem[G]
        far = 0
        for k, o in self.positions(s):
            d = o - g
            if d.const and 0 < d.c <= 16:
                far = max(far, d.c)
        work = [s]
        for _ in range(far):
            work = [y for x in work for y in (self.step(x.copy()) if x.x["aut"] != "err" else [x])]
        return work

    def canon_loop(self, st, entry):
        if "aut" not in st.x:
            return st
        st = st.copy()
        for k in [k for k in st.x if k != "aut"]:
            del st.x[k]
        n = self.vec + (("n",),)
        if st.x["aut"] != "err" and n in st.mem and not self.same(st, st.mem[n], st.mem[K]):
            self.say("extra", "adds a token that is not in the pattern")
        for m in (st.mem, st.src):
            for k in [k for k in m if k[:len(self.vec)] == self.vec and len(k) > len(self.vec) and k[len(self.vec)][0] == "i"]:
                del m[k]
        st.mem.pop((("gh", "pend", self.vec),), None)
        gap = st.mem[G] - st.mem[T0]
        if gap.const and 0 <= gap.c <= 2:
            st.x[("gap",)] = gap.c
        if st.x["aut"] != "err" and st.x["aut"][1] == "after":
            if self.entails(st, self.a.hi - st.mem[G]):
                st.x[("next",)] = "end"
            elif self.entails(st, st.mem[G] - self.a.hi + 1):
                d = self.dom_at(self.a.root, st.mem[G], st)
                if d != EVERY:
                    st.x[("next",)] = d
        for k, o in list(self.positions(st)):
            for b in (T0, G):
                d = o - st.mem[b]
                if d.const and abs(d.c) <= 2 and (b == G or d.c == 0 and ("gap",) not in st.x):
                    st.x[("rel", k)] = (b, d.c)
                    break
        return st

    def post_head(self, h):
        if "aut" not in h.x:
            return h
        h = h.copy()
        if ("gap",) in h.x:
            h.mem[T0] = h.mem[G] - h.x[("gap",)]
        for k, r in h.x.items():
            if k[0] == "rel" and isinstance(h.mem.get(k[1]), Ptr):
                h.mem[k[1]] = Ptr(h.mem[k[1]].loc, h.mem[r[0]] + r[1])
        n = self.vec + (("n",),)
        if n in h.mem and h.x["aut"] != "err":
            h.mem[n] = h.mem[K]
        nx = h.x.get(("next",))
        if nx is not None:
            t = self.assume_le(h, self.a.hi - h.mem[G] if nx == "end" else h.mem[G] - self.a.hi + 1)
            if t is not None:
                h = t
                if nx != "end":
                    h.dom[("B", self.chsym(self.a.root, h.mem[G], h))] = nx
        # what the mode says about the last character
        flag = h.x["aut"][1]
        if flag in ("slash", "other", "some") and ("gap",) not in h.x:
            t = self.assume_le(h, h.mem[T0] + 1 - h.mem[G])
            h = h if t is None else t
        last = {"slash": frozenset(b"/"), "other": EVERY - frozenset(b"/"), "after": frozenset(b"}")}.get(flag)
        if last and h.x["aut"][0] == "static" and h.x["aut"][2] == 0:
            t = self.assume_le(h, self.a.lo + 1 - h.mem[G])
            if t is not None:
                h = t
                h.dom[("B", self.chsym(self.a.root, h.mem[G] - 1, h))] = last
        return h

    def loop(self, n, sts, cond, body, inc, post=False):
        return Objs.loop(self, n, [y for x in sts for y in self.catch_up(x)], cond, body, inc, post)

    def loop_pass(self, n, head, cond, body, inc, post):
        ex, back = Objs.loop_pass(self, n, head, cond, body, inc, post)
        return ([y for x in ex for y in self.catch_up(x)],
                self.dedup([y for x in back for y in self.catch_up(x) if self.alive(y)]))

    def alive(self, s):
        if s.x.get("aut") == "err":
            self.say("accept", "goes on after a character that no pattern can have there")
            return False
        return True

    # ---- the loop that looks for another token of the same name
    def other_range(self, n, rl, st):
        l = st.mem.get(rl)
        if isinstance(l, Ref):
            rl = l.loc
        if rl != getattr(self, "vec", None):
            return Objs.other_range(self, n, rl, st)
        fr = self.frames[-1]
        var = n["var"]
        vloc = (("v", fr.fid, var["id"]),)
        from absint import Out
        s = st.copy()
        j = self.fresh("j", "long")
        cnt = s.mem[rl + (("n",),)]
        el = rl + (("i", sym(j)),)
        s.cons = s.cons + (sym(j) - cnt + 1, -sym(j))
        val = self.text("elem#%d" % self.n, s)
        self.put(el + (("f", self.fv),), val, s)
        ks = self.fresh("kind", "int")
        s.mem[el + (("f", self.fk),)] = sym(ks)
        s.cons = s.cons + (sym(ks) - 2, -sym(ks))
        s.mem[vloc] = Ref(el)
        self.rets.append([])
        o = self.ex(n["body"], s)
        early = self.rets.pop()
        name = lambda x: not self.feasible_kind(x, sym(ks), "static_")
        texts = []
        for x in [r[0] for r in early] + o.b + o.n + o.c:
            for f, v in x.facts.items():
                if isinstance(f, Bo) and f.k == "at" and f.p[0] == "texteq" and val in f.p[1:]:
                    texts.append(f.p[1] if f.p[2] == val else f.p[2])
        texts = [t for i, t in enumerate(texts) if isinstance(t, V) and t not in texts[:i]]
        eq = lambda x, t: next((v for f, v in x.facts.items() if isinstance(f, Bo) and f.k == "at" and f.p[0] == "texteq" and
                                val in f.p[1:] and t in f.p[1:]), None)
        out = Out()
        done = st.copy()
        for t in texts:
            if all(eq(x, t) is False or (name(x) is False and self.only_static(x, sym(ks))) for x in o.n + o.c):
                done.facts[("dup", t)] = False

        def mark(x):
            for t in texts:
                if eq(x, t) is True and name(x):
                    x = x.copy()
                    x.facts[("dup", t)] = True
            return x
        out.n.append(done)
        out.n += [mark(x) for x in o.b]
        self.rets[-1] += [(mark(r[0]),) + tuple(r[1:]) for r in early]
        return out

    def feasible_kind(self, x, k, name):
        t = self.assume_le(x, k - self.kinds[name])
        t = t and self.assume_le(t, self.kinds[name] - k)
        return t is not None and not any(d == k - self.kinds[name] or -d == k - self.kinds[name] for d in x.ne)

    def only_static(self, x, k):
        return not any(self.feasible_kind(x, k, n) for n in ("param", "wildcard"))


def rejects(it, s, depth=0):
    """every pattern of this state is wrong"""
    if s.x["aut"] == "err":
        return True
    if depth > 5:
        return False
    t, f = it.branch(s, it.cmp_lin("<=", s.mem[G] - it.a.hi + 1))
    for x in f:
        ok, em = at_end(s.x["aut"])
        if ok and not (em == "wildcard" and it.dup(x, V(it.a.root, x.mem[T0], x.mem[G])) is True):
            return False
    return all(rejects(it, y, depth + 1) for x in t for y in it.step(x.copy()))


def parsers(prog):
    return [f for f in prog.fns.values() if f["sqn"] == PP + "::parse" and f.get("body") and len(f["params"]) <= 1]


def parse(rep, prog, which):
    rec = prog.rec_by_type.get("fitoria::web::path_token_t")
    if rec is None:
        raise facts.AnalysisError("path_token_t is gone")
    kty = [f for f in rec["fields"] if "kind" in f["t"]][0]
    val = [f for f in rec["fields"] if "string" in f["t"]][0]
    en = [x for q, x in prog.enums.items() if q.endswith("path_token_kind")][0]
    kinds = {c[0]: Lin(int(c[1])) for c in en["vals"]}
    n = 0
    for f in [parsers(prog)[which]]:
        it = Paths(prog, rep)
        it.fn = f
        it.wild = "<true" in f["rec"].replace(" ", "") or "<1" in f["rec"]
        it.fk, it.fv, it.kty, it.kinds = kty["n"], val["n"], unq(kty["t"]), kinds
        st = St()
        it.a = a = it.text("pattern", st)
        # parse<pattern>(): a fixed string stands for its characters (that is another property)
        it.models["basic_fixed_string::operator basic_string_view"] = lambda fn, s, this, args, e: [(s, a)]
        it.run_setup()
        loc = it.tmp(unq(f["rec"]))
        cls = prog.rec_by_type[unq(f["rec"])]
        vecs = [x["n"] for x in cls["fields"] if "vector" in x["t"] or "path_tokens_t" in x["t"]]
        if len(vecs) != 1:
            raise facts.AnalysisError("the tokens' storage is not recognised")
        it.vec = loc + (("f", vecs[0]),)
        # a parser that may have been used before
        st.mem[it.vec] = Tok("vec")
        old = it.fresh("old", "unsigned long")
        st.mem[it.vec + (("n",),)] = sym(old)
        it.lty[it.vec + (("n",),)] = "unsigned long"
        st.cons = st.cons + (sym(old) - BIG,)
        for k, v in ((G, a.lo), (T0, a.lo), (K, Lin(0))):
            st.mem[k] = v
            it.lty[k] = "long"
        st.x["aut"] = ("static", "start", 0)
        res, thr = it.run(f, [a] if f["params"] else [], st, loc)
        rep.analysed(f)
        for s0, v in res:
            for s1, b in boolean(it, s0, v):
                n += 1
                rep.obligation("pattern outcomes compared")
                for s in it.catch_up(s1):
                    if not b:
                        it.look = True
                        if not rejects(it, s):
                            it.say("reject", "rejects a pattern that follows the grammar")
                        it.look = False
                        continue
                    if s.x["aut"] == "err":
                        it.say("accept", "accepts a pattern that does not follow the grammar")
                        continue
                    if not it.entails(s, a.hi - s.mem[G]):
                        it.say("accept", "accepts a pattern without having read all of it")
                        continue
                    ok, em = at_end(s.x["aut"])
                    if not ok:
                        it.say("accept", "accepts a pattern that ends in the middle of a parameter")
                        continue
                    if em:
                        x = it.emit(s.copy(), em, V(a.root, s.mem[T0], a.hi))
                        if x is None:
                            it.say("accept", "accepts two parameters of the same name")
                            continue
                        s = x
                    if not it.same(s, s.mem[it.vec + (("n",),)], s.mem[K]):
                        it.say("extra", "adds a token that is not in the pattern")
        rep.obligation("tokens compared", getattr(it, "cnt", 0))
        if thr:
            it.say("throw", "may throw")
        flush(rep, it, "path_parser::parse")
    rep.require("outcomes", n, 4)


def got(rep, prog):
    for f in fns(prog, PP + "::get", 0):
        it = Objs(prog, rep)
        st = St()
        it.run_setup()
        loc = it.tmp(unq(f["rec"]))
        cls = prog.rec_by_type[unq(f["rec"])]
        vec = loc + (("f", [x["n"] for x in cls["fields"] if "vector" in x["t"] or "path_tokens_t" in x["t"]][0]),)
        st.mem[vec] = Tok("vec")
        it.symty[("cnt",)] = "unsigned long"
        st.mem[vec + (("n",),)] = sym(("cnt",))
        for s, v in it.call_body(f, loc, [], st, {"k": "CXXMemberCallExpr", "t": f["ret"], "args": [], "l": f["l"]}):
            rep.obligation("results compared")
            if not (isinstance(v, Ref) and s.mem.get(v.loc + (("n",),)) == sym(("cnt",))):
                rep.violation("path:get", f, None, "path_parser::get does not give the tokens")
        rep.analysed(f)
        flush(rep, it, "path_parser::get")


def main(rep):
    prog = facts.load("core")
    rep.soft = True
    jobs = [("parse", i) for i in range(len(parsers(prog)))] + [("get", 0)]
    report.parallel(rep, lambda r, j: parse(r, prog, j[1]) if j[0] == "parse" else got(r, prog), jobs)
    rep.require("outcomes", sum(n for k, n in rep.obl if "compared" in k), 4)


if __name__ == "__main__":
    report.run("C10", "abstract interpretation in lock step with a reference automaton",
               "for every pattern: accepted exactly when it follows the route grammar with unique names, with exactly its tokens in order", main)
