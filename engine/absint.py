"""Compositional abstract interpreter over the fact AST.

Abstract states map locations to abstract values (see values.py), with linear
constraints, branch facts and finite domains for refinement.  Functions of the analysed
tree are interpreted at their call sites (so an extracted helper is transparent);
everything else is modelled or havocked.  Loops are solved as fixpoints: written numeric
locations are abstracted with inferred linear invariants, finite-valued ones partition
the head state.
"""
import sys
from values import *
from facts import AnalysisError, strip_targs, short

sys.setrecursionlimit(20000)


class St:
    __slots__ = ("mem", "cons", "ne", "facts", "dom", "x", "src", "inex")

    def __init__(self):
        self.mem, self.facts, self.dom, self.x, self.src = {}, {}, {}, {}, {}
        self.cons, self.ne = (), ()
        self.inex = False

    def copy(self):
        s = St.__new__(St)
        s.mem, s.facts, s.dom = dict(self.mem), dict(self.facts), dict(self.dom)
        s.x, s.src = dict(self.x), dict(self.src)
        s.cons, s.ne, s.inex = self.cons, self.ne, self.inex
        return s


class Frame:
    def __init__(self, fid, fn, this, caps, depth):
        self.fid, self.fn, self.this, self.caps, self.depth = fid, fn, this, caps, depth


class Exc:
    """an exception in flight: dynamic type (canonical class name) or None if unknown"""

    def __init__(self, ty, node=None, why=""):
        self.ty, self.node, self.why = ty, node, why

    def __repr__(self):
        return "exc(%s)" % self.ty


class Out:
    __slots__ = ("n", "b", "c")

    def __init__(self, n=None, b=None, c=None):
        self.n, self.b, self.c = n or [], b or [], c or []


class Budget(AnalysisError):
    pass


_sq = {}


def sq(qn):
    r = _sq.get(qn)
    if r is None:
        r = _sq[qn] = short(qn)
    return r


def is_ref(t):
    return t.endswith("&")


SMART = ("std::unique_ptr", "std::shared_ptr")

LOGIC = ("&&", "||")


class Interp:
    max_depth = 24
    max_states = 4000
    budget = 400000

    def __init__(self, prog):
        self.p = prog
        self.n = 0
        self.frames = []
        self.tc = []
        self.rets = []
        self.lty = {}
        self.symty = {}
        self.lazy = set()
        self._clo = {}
        self._ent = {}
        self.steps = 0
        self.visited = set()
        self.calls = 0
        self.models = {}
        self.std_models()
        self.recnames = None

    # ------------------------------------------------------------ hooks
    def hook_call(self, fn, st, this, args, e):
        """return None (default treatment) or a list of (state, value)"""
        return None

    def hook_load(self, loc, ty, st):
        return None

    def hook_store(self, loc, val, st, node):
        return False

    def hook_index(self, base, idx, st, node):
        pass

    def hook_arith(self, node, op, lin, ty, st):
        """an unsigned/signed result may leave the range of its type"""
        pass

    def hook_throw(self, st, exc):
        pass

    def hook_assert(self, st, node):
        pass

    def hook_unknown(self, node, why):
        pass

    def hook_scope_exit(self, loc, ty, st):
        return None

    def may_throw(self, fn, e):
        """does an un-inlined call possibly throw?"""
        return False

    def inline(self, fn):
        return True

    def canon_loop(self, st, entry):
        return st

    def post_head(self, h):
        """relations a client carries over in x are put back into a havocked loop head"""
        return h

    def discrete(self, loc, v):
        ty = self.lty.get(loc, "")
        if isinstance(v, Bo):
            return v.k == "c"
        if isinstance(v, Lin):
            return v.const and int_type(ty) is None and not ty.endswith("*")
        if isinstance(v, Ptr):
            return v.off is None
        return isinstance(v, (Ref, Fn, Str, Tok))

    # ------------------------------------------------------------ basics
    def fresh(self, tag, ty=None):
        self.n += 1
        s = "%s#%d" % (tag, self.n)
        if ty is not None:
            self.symty[s] = ty
        return s

    def tmp(self, ty=None):
        self.n += 1
        loc = (("t", self.n),)
        if ty is not None:
            self.lty[loc] = ty
        return loc

    def symname(self, loc, st):
        for i in range(len(loc), 0, -1):
            b = st.src.get(loc[:i])
            if b is not None:
                return b + loc[i:]
        return loc

    def mk(self, name, ty):
        u = unq(ty)
        if u == "bool":
            return Bo("at", name)
        if int_type(u) or self.is_enum(u):
            if name not in self.symty:
                self.symty[name] = u
            return sym(name)
        if u.endswith("*"):
            return Ptr((("deref", name),), None)
        if u == "void":
            return VOID
        return Tok(name)

    def is_enum(self, u):
        e = getattr(self, "_enums", None)
        if e is None:
            e = self._enums = {}
            for qn, x in self.p.enums.items():
                e[qn] = x
        s = sq(u)
        return s in e or s in ("std::errc", "std::byte", "std::align_val_t")

    def is_class(self, ty):
        u = unq(ty)
        if u.endswith(("*", "&", ")")) or int_type(u) or u in (
                "void", "float", "double", "long double", "std::nullptr_t", "nullptr_t"):
            return False
        if self.is_enum(u):
            return False
        return True

    def scalar_class(self, ty):
        """class types treated as scalar values"""
        s = sq(unq(ty))
        return s in self.scalars

    scalars = {"std::basic_string_view", "std::type_index", "std::type_info"}

    def load(self, loc, ty, st):
        v = st.mem.get(loc)
        if v is not None:
            return v
        r = self.hook_load(loc, ty, st)
        if r is None and loc[-1][0] == "i":
            r = self.table_load(loc, ty, st)
        if r is not None:
            return r
        if self.is_class(ty) and not self.scalar_class(ty):
            return Ref(loc)
        v = self.mk(self.symname(loc, st), ty)
        st.mem[loc] = v
        self.lazy.add((loc, v))
        self.lty.setdefault(loc, unq(ty))
        return v

    def table_load(self, loc, ty, st):
        """element of a constant table / constant string"""
        i = loc[-1][1]
        b = loc[0]
        if b[0] == "g" and len(loc) == 2:
            g = self.p.var_by_id.get(b[2])
            tab = g and g.get("val")
            while isinstance(tab, list) and len(tab) == 1 and isinstance(tab[0], list):
                tab = tab[0]
            if not isinstance(tab, list) or not all(
                    isinstance(x, str) and x.lstrip("-").isdigit() for x in tab):
                return None
            tab = [int(x) for x in tab]
        elif b[0] in ("strlit", "chars") and len(loc) == 2:
            v = Str(b[1]) if b[0] == "strlit" else b[1]
            if not isinstance(v, Str):
                return None
            tab = [ord(c) for c in v.s] + [0]
        else:
            return None
        if isinstance(i, Lin) and i.const:
            return Lin(tab[i.c]) if 0 <= i.c < len(tab) else None
        if isinstance(i, U):
            return self.u_collapse(U(i.s, tuple(
                tab[x] if 0 <= x < len(tab) else 0 for x in i.m)), st)
        if isinstance(i, Bits):
            return App(b[1], i)
        return None

    def table_size(self, loc):
        b = loc[0]
        if b[0] == "g" and len(loc) == 1:
            g = self.p.var_by_id.get(b[2])
            tab = g and g.get("val")
            while isinstance(tab, list) and len(tab) == 1 and isinstance(tab[0], list):
                tab = tab[0]
            if isinstance(tab, list):
                return len(tab)
        return None

    def in_range(self, i, n, st):
        """is index value i provably within [0, n)?"""
        if isinstance(i, U):
            d = st.dom.get(("B", i.s), range(256))
            return all(0 <= i.m[x] < n for x in d)
        if isinstance(i, Bits):
            hi = sum(1 << j for j, x in enumerate(i.b) if x != 0)
            return hi < n
        if isinstance(i, Lin):
            return self.entails(st, i - (n - 1)) and self.entails(st, -i)
        return False

    def store(self, loc, v, st, node=None, ty=None):
        if ty:
            self.lty.setdefault(loc, unq(ty))
        if self.hook_store(loc, v, st, node):
            return
        st.mem[loc] = v

    def clear(self, loc, st):
        n = len(loc)
        for k in [k for k in st.mem if k[:n] == loc]:
            del st.mem[k]
        for k in [k for k in st.src if k[:n] == loc]:
            del st.src[k]

    def havoc(self, loc, st, tag="h"):
        self.clear(loc, st)
        self.n += 1
        st.src[loc] = (("%s%d" % (tag, self.n),),) + loc[-1:]

    def copy_obj(self, src, dst, st):
        """dst := value of src (shallow memory image)"""
        if src == dst:
            return
        base = self.symname(src, st)
        n = len(src)
        items = [(k, v) for k, v in st.mem.items() if k[:n] == src]
        srcs = [(k, v) for k, v in st.src.items() if k[:n] == src]
        self.clear(dst, st)
        st.src[dst] = base
        for k, v in items:
            st.mem[dst + k[n:]] = v
            if k in self.lty:
                self.lty[dst + k[n:]] = self.lty[k]
        for k, v in srcs:
            if len(k) > n:
                st.src[dst + k[n:]] = v
        if src in self.lty:
            self.lty.setdefault(dst, self.lty[src])

    def assign_val(self, loc, v, st, node=None, ty=None):
        if isinstance(v, Ref):
            self.copy_obj(v.loc, loc, st)
            if ty:
                self.lty[loc] = unq(ty)
        else:
            self.store(loc, v, st, node, ty)

    # ------------------------------------------------------------ constraints
    def ranges(self, lins):
        out = []
        seen = set()
        for l in lins:
            for s in l.syms():
                if s in seen:
                    continue
                seen.add(s)
                t = self.symty.get(s)
                r = int_range(t) if t else None
                if r:
                    out.append(sym(s) - r[1])
                    out.append(-sym(s) + r[0])
        return out

    def relevant(self, st, goal):
        ss = set(goal.syms())
        cons = [c for c in st.cons]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c in cons:
                if any(s in ss for s in c.syms()):
                    out.append(c)
                    ss.update(c.syms())
                    ch = True
                else:
                    rest.append(c)
            cons = rest
        return out

    def entails(self, st, goal):
        """st |= goal <= 0 ?"""
        if goal.const:
            return goal.c <= 0
        ck = (goal, st.cons, st.ne, tuple(st.dom.get(s) for s in goal.syms()))
        r = self._ent.get(ck)
        if r is None:
            r = self._ent[ck] = self.entails1(st, goal)
        return r

    def symrange(self, s):
        t = self.symty.get(s)
        return int_range(t) if t else None

    def closure(self, cons):
        """difference-constraint closure of a constraint tuple (extended from a known prefix)"""
        C = self._clo
        r = C.get(cons)
        if r is not None:
            return r
        n = len(cons)
        base = None
        k = n - 1
        while k >= 0 and k >= n - 12:
            base = C.get(cons[:k])
            if base is not None:
                break
            k -= 1
        if base is None:
            k = 0
        r = Diff(base)
        for i in range(k, n):
            r.add(cons[i], self.symrange)
        if len(C) > 4000:
            C.clear()
        C[cons] = r
        return r

    def entails1(self, st, goal):
        c = self.closure(st.cons)
        r = c.proves(goal)
        if r:
            return True
        if r is False and not c.odd and not any(s in c.ix for s in st.dom) and not any(
                s in c.ix for d in st.ne for s in d.syms()):
            return False
        neg = (-goal) + 1
        # the difference constraints are projected onto the symbols the others speak of
        I = set(goal.syms())
        for l in c.odd:
            I.update(l.syms())
        for s in st.dom:
            if s in c.ix:
                I.add(s)
        for d in st.ne:
            if any(s in c.ix or s in I for s in d.syms()):
                I.update(d.syms())
        ks = [(s, c.ix[s]) for s in sorted(I, key=repr) if s in c.ix]
        allc = list(c.odd) + [neg]
        d = c.d
        for s, a in ks:
            if d[a][0] is not None:
                allc.append(sym(s) - d[a][0])
            if d[0][a] is not None:
                allc.append(-sym(s) - d[0][a])
            for u, b in ks:
                if a != b and d[a][b] is not None:
                    w = d[a][b]
                    # a bound that follows from the ones through 0 is left out
                    if d[a][0] is None or d[0][b] is None or d[a][0] + d[0][b] > w:
                        allc.append(sym(s) - sym(u) - w)
        out = [sym(s) for s in I if s not in c.ix]
        allc += self.ranges(out) + self.domcons(st, allc)
        if fm_unsat(allc):
            return True
        for d in st.ne:
            for a in (d, -d):
                # a<=0 entailed and a!=0  ->  a<=-1
                if set(a.syms()) & set(s for c in allc for s in c.syms()):
                    if fm_unsat(allc + [a]) is False and fm_unsat(allc + [(-a) + 1]):
                        if fm_unsat(allc + [a + 1]):
                            return True
        return False

    def domcons(self, st, lins):
        out = []
        for s in set(x for l in lins for x in l.syms()):
            d = st.dom.get(s)
            if d:
                out.append(sym(s) - max(d))
                out.append(-sym(s) + min(d))
        return out

    def feasible(self, st):
        c = self.closure(st.cons)
        if c.bad:
            return False
        if not c.odd and not any(s in c.ix for s in st.dom):
            return True
        cons = list(st.cons)
        cons += self.ranges(cons) + self.domcons(st, cons)
        if fm_unsat(cons):
            return False
        return True

    def assume(self, st, b):
        """refine a (fresh) state with literal b; None if contradictory"""
        if b.k == "c":
            return st if b.p else None
        if b.k == "at":
            if b in st.facts:
                return st if st.facts[b] else None
            st = st.copy()
            st.facts[b] = True
            return self.on_fact(st, b, True)
        if b.k == "not":
            i = b.p
            if i.k == "eq":
                return self.assume_ne(st, i.p)
            if i in st.facts:
                return None if st.facts[i] else st
            st = st.copy()
            st.facts[i] = False
            return self.on_fact(st, i, False)
        if b.k == "le":
            return self.assume_le(st, b.p)
        if b.k == "eq":
            l = b.p
            if l.const:
                return st if l.c == 0 else None
            if len(l.t) == 1:
                s, k = l.t[0]
                if l.c % k:
                    return None
                v = -l.c // k
                d = st.dom.get(s)
                if d is not None and v not in d:
                    return None
                if self.entails(st, l + 1) or self.entails(st, (-l) + 1):
                    return None
                st = st.copy()
                st.dom[s] = frozenset([v])
            st2 = self.assume_le(st, l)
            return st2 and self.assume_le(st2, -l)
        if b.k == "in":
            s, S = b.p
            d = st.dom.get(("B", s), frozenset(range(256)))
            nd = d & S
            if not nd:
                return None
            if nd == d:
                return st
            st = st.copy()
            st.dom[("B", s)] = nd
            return st
        raise AnalysisError("assume %r" % b)

    def on_fact(self, st, atom, val):
        return st

    def assume_le(self, st, l):
        if l.const:
            return st if l.c <= 0 else None
        if self.entails(st, l):
            return st
        neg = (-l) + 1
        if self.entails(st, neg):
            return None
        st = st.copy()
        add = [l]
        for d in st.ne:
            if d == l or d == -l:
                add = [l + 1]
        st.cons = st.cons + tuple(add)
        return st

    def assume_ne(self, st, l):
        if l.const:
            return st if l.c else None
        if len(l.t) == 1:
            s, k = l.t[0]
            if l.c % k == 0:
                v = -l.c // k
                d = st.dom.get(s)
                if d is not None:
                    nd = d - {v}
                    if not nd:
                        return None
                    if nd != d:
                        st = st.copy()
                        st.dom[s] = nd
                    return st
        up, lo = self.entails(st, l), self.entails(st, -l)
        if up and lo:
            return None
        st = st.copy()
        if up:
            st.cons = st.cons + (l + 1,)
        elif lo:
            st.cons = st.cons + ((-l) + 1,)
        else:
            st.ne = st.ne + (l,)
        return st

    def branch(self, st, b):
        """-> (true states, false states)"""
        t = self.assume(st, b)
        f = self.assume(st, bo_not(b))
        return ([t] if t else []), ([f] if f else [])

    def to_bool(self, v, st):
        if isinstance(v, Bo):
            return v
        if isinstance(v, Lin):
            if v.const:
                return TRUE if v.c else FALSE
            return bo_not(Bo("eq", v))
        if isinstance(v, U):
            return self.uset(v, lambda x: x != 0, st)
        if isinstance(v, Ptr):
            if v.loc is None:
                return FALSE
            if v.loc[0][0] == "deref" and v.off is None:
                return Bo("at", ("nonnull", v.loc))
            return TRUE
        if isinstance(v, Bits):
            if all(x == 0 for x in v.b):
                return FALSE
            return Bo("at", ("nz", v))
        return Bo("at", ("bool", v))

    def uset(self, u, pred, st):
        d = st.dom.get(("B", u.s), frozenset(range(256)))
        S = frozenset(i for i in d if pred(u.m[i]))
        if S == d:
            return TRUE
        if not S:
            return FALSE
        return Bo("in", (u.s, frozenset(i for i in range(256) if pred(u.m[i]))))

    def u_collapse(self, v, st):
        if isinstance(v, U):
            d = st.dom.get(("B", v.s))
            it = range(256) if d is None else d
            vals = set(v.m[i] for i in it)
            if len(vals) == 1:
                return Lin(vals.pop())
        return v

    # ------------------------------------------------------------ throw
    def throw(self, st, exc):
        self.hook_throw(st, exc)
        if self.tc:
            self.tc[-1].append((st, exc))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exceeded in %s" % (
                self.frames[-1].fn.get("full", "?") if self.frames else "?"))
        if e is None:
            return [(st, VOID)]
        cv = e.get("cv")
        if cv is not None and not e.get("lv"):
            c = int(cv)
            if unq(e["t"]) == "bool":
                return [(st, TRUE if c else FALSE)]
            return [(st, Lin(c))]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.e_default(e, st)
        return m(e, st)

    def e_default(self, e, st):
        self.hook_unknown(e, "expression kind " + e["k"])
        sts = [st]
        for c in e.get("c", []):
            if isinstance(c, dict):
                sts = [s2 for s in sts for s2, _ in self.ev(c, s)]
        return [(s, self.unk(e, s)) for s in sts]

    def unk(self, e, st, tag="u"):
        ty = e.get("t", "")
        if e.get("lv"):
            loc = self.tmp(ty)
            st.src[loc] = ((self.fresh(tag),),)
            return Ref(loc)
        return self.unk_ty(ty, st, tag)

    def unk_ty(self, ty, st, tag="u"):
        if self.is_class(ty) and not self.scalar_class(ty):
            loc = self.tmp(unq(ty))
            st.src[loc] = ((self.fresh(tag),),)
            return Ref(loc)
        return self.mk(self.fresh(tag), ty)

    def evs(self, es, st):
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def e_IntegerLiteral(self, e, st):
        return [(st, Lin(int(e.get("cv", 0))))]

    e_CharacterLiteral = e_IntegerLiteral

    def e_StringLiteral(self, e, st):
        s = e.get("s")
        loc = (("strlit", s if s is not None else self.fresh("lit")),)
        if s is not None:
            st.mem[loc] = Str(s)
        return [(st, Ref(loc))]

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return [(st, Ptr(None))]

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXBoolLiteralExpr(self, e, st):
        return [(st, TRUE if e.get("cv") == "1" else FALSE)]

    def e_FloatingLiteral(self, e, st):
        return [(st, Tok("float", e.get("l")))]

    def e_CXXThisExpr(self, e, st):
        t = self.frames[-1].this
        return [(st, Ptr(t) if t is not None else self.mk(("this",), e["t"]))]

    def varloc(self, e):
        fr = self.frames[-1]
        i = e["id"]
        if i in fr.caps:
            return fr.caps[i]
        if e.get("glob") or e.get("dk") == "Field":
            return (("g", sq(e.get("qn", e["n"])) if not e.get("static") else i, i),)
        return (("v", fr.fid, i),)

    def e_DeclRefExpr(self, e, st):
        if sq(e.get("qn", "")).rsplit("::", 1)[0] in self.ORDERING and \
                e.get("n") in self.ORDCONST:
            return [(st, Lin(self.ORDCONST[e["n"]]))]
        dk = e.get("dk")
        if dk == "EnumConstant":
            return [(st, Lin(int(e["cv"])))] if "cv" in e else [(st, Tok("enum", e.get("qn")))]
        if dk in ("Function", "CXXMethod", "CXXConversion", "CXXConstructor"):
            return [(st, Fn(e["id"], e))]
        if dk == "NonTypeTemplateParm" or dk == "TemplateParamObject":
            return [(st, self.unk(e, st))]
        loc = self.varloc(e)
        v = st.mem.get(loc)
        if isinstance(v, Ref):
            return [(st, v)]
        if e.get("glob"):
            self.global_init(e, loc, st)
        self.lty.setdefault(loc, unq(e["t"]))
        return [(st, Ref(loc))]

    def global_init(self, e, loc, st):
        if loc in st.mem or loc in st.src:
            return
        st.src[loc] = (("g", sq(e.get("qn", e["n"]))),)
        g = self.p.var_by_id.get(e["id"])
        ini = g and g.get("init")
        if g and unq(g["t"]) != g["t"].strip() and ini is not None:
            k = ini["k"]
            x = ini
            while x["k"] in ("ImplicitCastExpr", "CXXFunctionalCastExpr") and "e" in x:
                x = x["e"]
            if x["k"] in ("StringLiteral", "CXXConstructExpr", "CXXTemporaryObjectExpr",
                          "InitListExpr"):
                if getattr(self, "_ginit", 0) > 3:
                    return
                self._ginit = getattr(self, "_ginit", 0) + 1
                try:
                    r = self.ev(ini, st)
                    if len(r) == 1 and r[0][0] is st:
                        v = r[0][1]
                        if isinstance(v, Ref):
                            sv = st.src.get(loc)
                            self.copy_obj(v.loc, loc, st)
                        else:
                            st.mem[loc] = v
                except (AnalysisError, KeyError):
                    pass
                finally:
                    self._ginit -= 1

    def e_MemberExpr(self, e, st):
        if e.get("dk") in ("CXXMethod", "Function"):
            return [(s, Fn(e["id"], e)) for s, _ in self.ev(e.get("e"), st)]
        out = []
        if e.get("glob"):
            loc = (("g", sq(e.get("qn", e["n"])), e["id"]),)
            self.global_init(e, loc, st)
            return [(st, Ref(loc))]
        for s, v in self.ev(e["e"], st):
            if e.get("arrow"):
                b = self.deref(v, e, s)
            else:
                b = v.loc if isinstance(v, Ref) else None
            if b is None:
                out.append((s, self.unk(e, s)))
                continue
            loc = b + (("f", e["n"]),)
            self.lty.setdefault(loc, unq(e["t"]))
            m = s.mem.get(loc)
            if isinstance(m, Ref):
                out.append((s, m))
            else:
                out.append((s, Ref(loc)))
        return out

    def deref(self, v, e, st):
        """pointer value -> location"""
        if isinstance(v, Ptr):
            t = v.target()
            if t is None:
                return (("null",),)
            return t
        if isinstance(v, Ref):
            return v.loc
        return (("deref", v),)

    def e_MaterializeTemporaryExpr(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            if isinstance(v, Ref):
                out.append((s, v))
            else:
                loc = self.tmp(unq(e["t"]))
                s.mem[loc] = v
                out.append((s, Ref(loc)))
        return out

    # ---- casts
    def e_ImplicitCastExpr(self, e, st):
        ck = e["ck"]
        out = []
        for s, v in self.ev(e["e"], st):
            out.append((s, self.cast(ck, e, v, s)))
        return out

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr
    e_BuiltinBitCastExpr = e_ImplicitCastExpr

    def rv(self, v, ty, st):
        """lvalue-to-rvalue"""
        if isinstance(v, Ref):
            return self.load(v.loc, ty, st)
        return v

    def cast(self, ck, e, v, st):
        ty = e["t"]
        if ck == "LValueToRValue":
            return self.u_collapse(self.rv(v, ty, st), st)
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr", "AtomicToNonAtomic",
                  "NonAtomicToAtomic", "LValueBitCast", "Dependent"):
            return v
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic",
                  "BitCast", "LValueToRValueBitCast"):
            return v
        if ck == "ArrayToPointerDecay":
            return Ptr(v.loc, Lin(0)) if isinstance(v, Ref) else v
        if ck == "ToVoid":
            return VOID
        if ck == "NullToPointer":
            return Ptr(None)
        if ck == "IntegralCast" or ck == "IntegralToBoolean" or ck == "PointerToBoolean" \
                or ck == "BooleanToSignedIntegral" or ck == "FloatingToBoolean":
            if unq(ty) == "bool":
                return self.to_bool(v, st)
            return self.icast(v, e["e"].get("t", ""), ty, st, e)
        if self.is_class(ty) or e.get("lv"):
            return v
        if ck in ("FloatingCast", "IntegralToFloating", "FloatingToIntegral"):
            return self.mk(("cast", unq(ty), v), ty)
        return v if not isinstance(v, Ref) else self.unk(e, st)

    def icast(self, v, fty, ty, st, e=None):
        it = int_type(ty)
        if it is None:
            return v
        w, sg = it
        if isinstance(v, Bo):
            if v.k == "c":
                return Lin(1 if v.p else 0)
            n = ("b2i", v)
            self.symty[n] = "bool"
            return sym(n)
        if isinstance(v, U):
            return v.map(lambda x: wrap(x, ty))
        if isinstance(v, Bits):
            b = list(v.b)
            if len(b) >= w:
                return Bits(b[:w])
            f = int_type(fty)
            ext = b[-1] if (f and f[1]) else 0
            return Bits(b + [ext] * (w - len(b)))
        if isinstance(v, App):
            return v
        if isinstance(v, Lin):
            if v.const:
                return Lin(wrap(v.c, ty))
            r = int_range(ty)
            if self.entails(st, v - r[1]) and self.entails(st, (-v) + r[0]):
                return v
            fr = int_range(fty) if fty else None
            if fr and (fr[0] >= r[0] and fr[1] <= r[1]):
                return v
            self.hook_arith(e, "cast", v, ty, st)
            n = ("cast", unq(ty), v)
            self.symty[n] = unq(ty)
            return sym(n)
        n = ("cast", unq(ty), v)
        self.symty.setdefault(n, unq(ty))
        return sym(n)

    # ---- operators
    def e_UnaryOperator(self, e, st):
        op = e["op"]
        out = []
        if op == "&":
            for s, v in self.ev(e["e"], st):
                if isinstance(v, Ref):
                    l = v.loc
                    if l and l[-1][0] == "i" and isinstance(l[-1][1], Lin):
                        out.append((s, Ptr(l[:-1], l[-1][1])))
                    else:
                        out.append((s, Ptr(l)))
                else:
                    out.append((s, v))
            return out
        if op == "*":
            for s, v in self.ev(e["e"], st):
                if isinstance(v, Fn):
                    out.append((s, v))
                    continue
                l = self.deref(v, e, s)
                self.lty.setdefault(l, unq(e["t"]))
                m = s.mem.get(l)
                out.append((s, m if isinstance(m, Ref) else Ref(l)))
            return out
        if op in ("++", "--"):
            for s, v in self.ev(e["e"], st):
                s = s.copy()
                old = self.rv(v, e["e"]["t"], s)
                new = self.arith(e, "+" if op == "++" else "-", old, Lin(1), e["e"]["t"], s)
                if isinstance(v, Ref):
                    self.store(v.loc, new, s, e)
                out.append((s, old if e.get("post") else v))
            return out
        if op == "!":
            for s, v in self.ev(e["e"], st):
                out.append((s, bo_not(self.to_bool(v, s))))
            return out
        for s, v in self.ev(e["e"], st):
            if op == "+":
                r = v
            elif op == "-":
                if isinstance(v, Lin):
                    r = self.fit(e, "-", -v, e["t"], s)
                elif isinstance(v, U):
                    r = v.map(lambda x: wrap(-x, e["t"]))
                else:
                    r = self.mk(("neg", v), e["t"])
            elif op == "~":
                if isinstance(v, Lin) and v.const:
                    r = Lin(wrap(~v.c, e["t"]))
                elif isinstance(v, U):
                    r = v.map(lambda x: wrap(~x, e["t"]))
                else:
                    r = self.mk(("inv", v), e["t"])
            else:
                r = self.unk(e, s)
            out.append((s, r))
        return out

    ORDERING = ("std::strong_ordering", "std::weak_ordering", "std::partial_ordering")
    ORDCONST = {"less": -1, "equal": 0, "equivalent": 0, "greater": 1}

    def ordering(self, v, st):
        """the ordering value behind v: Lin(-1|0|1) or None"""
        if isinstance(v, Ref):
            v = st.mem.get(v.loc)
        return v if isinstance(v, Lin) and v.const else None

    def three_way(self, e, st):
        """built-in <=>: orderings are the integers -1, 0, 1"""
        out = []
        for s, (a, b) in self.evs([e["a"], e["b"]], st):
            a, b = self.rv(a, e["a"]["t"], s), self.rv(b, e["b"]["t"], s)
            work = [(s, a, b)]
            for i in (1, 2):
                nx = []
                for s1, *ab in work:
                    x = ab[i - 1]
                    if isinstance(x, Bo):
                        ts, fs = self.branch(s1, x)
                        for ss, v in [(t, Lin(1)) for t in ts] + [(f, Lin(0)) for f in fs]:
                            nx.append((ss, v, ab[1]) if i == 1 else (ss, ab[0], v))
                    else:
                        nx.append((s1, ab[0], ab[1]))
                work = nx
            for s1, x, y in work:
                ts, fs = self.branch(s1, self.compare("<", x, y, s1))
                out += [(t, Lin(-1)) for t in ts]
                for f in fs:
                    ts2, fs2 = self.branch(f, self.compare("==", x, y, f))
                    out += [(t, Lin(0)) for t in ts2] + [(g, Lin(1)) for g in fs2]
        return out

    def ordering_call(self, name, fn, st, this, args, e):
        if name.startswith("std::operator") and name[13:] in ("<", ">", "<=", ">=", "==", "!="):
            if len(args) == 2 and any(sq(unq(a.get("t", ""))) in self.ORDERING
                                      for a in e.get("args", []) if a):
                i = 0 if sq(unq(e["args"][0].get("t", ""))) in self.ORDERING else 1
                o = self.ordering(args[i], st)
                if o is None:
                    return None
                x, y = (o.c, 0) if i == 0 else (0, o.c)
                o2 = self.ordering(args[1 - i], st)
                if i == 0 and sq(unq(e["args"][1].get("t", ""))) in self.ORDERING:
                    if o2 is None:
                        return None
                    y = o2.c
                r = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y,
                     "!=": x != y}[name[13:]]
                return [(st, TRUE if r else FALSE)]
        if fn.get("dk") == "CXXConstructor" and sq(unq(e.get("cls", e.get("t", "")))) in \
                self.ORDERING and len(args) == 1:
            o = self.ordering(args[0], st)
            return None if o is None else [(st, o)]
        if name.startswith(tuple(o + "::operator" for o in self.ORDERING)) and this is not None:
            o = self.ordering(Ref(this), st)
            return None if o is None else [(st, o)]
        if name in ("std::is_eq", "std::is_neq", "std::is_lt", "std::is_lteq", "std::is_gt",
                    "std::is_gteq") and len(args) == 1:
            o = self.ordering(args[0], st)
            if o is None:
                return None
            r = {"eq": o.c == 0, "neq": o.c != 0, "lt": o.c < 0, "lteq": o.c <= 0, "gt": o.c > 0,
                 "gteq": o.c >= 0}[name[8:]]
            return [(st, TRUE if r else FALSE)]
        return None

    def e_BinaryOperator(self, e, st):
        op = e["op"]
        if op == "<=>":
            return self.three_way(e, st)
        if op == ",":
            return [r for s, _ in self.ev(e["a"], st) for r in self.ev(e["b"], s)]
        if op in LOGIC:
            out = []
            for s, a in self.ev(e["a"], st):
                ts, fs = self.branch(s, self.to_bool(a, s))
                if op == "&&":
                    out += [(x, FALSE) for x in fs]
                    go = ts
                else:
                    out += [(x, TRUE) for x in ts]
                    go = fs
                for x in go:
                    for s2, b in self.ev(e["b"], x):
                        out.append((s2, self.to_bool(b, s2)))
            return out
        if op == "=":
            out = []
            for s, b in self.ev(e["b"], st):
                for s2, a in self.ev(e["a"], s):
                    s2 = s2.copy()
                    if isinstance(a, Ref):
                        self.assign_val(a.loc, b, s2, e, e["a"].get("t"))
                    out.append((s2, a))
            return out
        out = []
        for s, (a, b) in self.evs([e["a"], e["b"]], st):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                out.append((s, self.compare(op, a, b, s, e)))
            else:
                out.append((s, self.arith(e, op, a, b, e["t"], s)))
        return out

    def e_CompoundAssignOperator(self, e, st):
        out = []
        for s, b in self.ev(e["b"], st):
            for s2, a in self.ev(e["a"], s):
                s2 = s2.copy()
                old = self.rv(a, e["a"]["t"], s2)
                ct = e.get("ct", e["t"])
                o1 = self.icast(old, e["a"]["t"], ct, s2, e) if int_type(ct) and not isinstance(
                    old, Ptr) else old
                new = self.arith(e, e["op"][:-1], o1, b, ct, s2)
                if int_type(e["t"]) and not isinstance(new, Ptr):
                    new = self.icast(new, ct, e["t"], s2, e)
                if isinstance(a, Ref):
                    self.store(a.loc, new, s2, e)
                out.append((s2, a))
        return out

    def cmp_lin(self, op, l):
        if op == "==":
            r = Bo("eq", l)
        elif op == "!=":
            r = bo_not(Bo("eq", l))
        elif op == "<":
            r = Bo("le", l + 1)
        elif op == "<=":
            r = Bo("le", l)
        elif op == ">":
            r = Bo("le", (-l) + 1)
        else:
            r = Bo("le", -l)
        if l.const:
            c = l.c
            v = {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0,
                 ">=": c >= 0}[op]
            return TRUE if v else FALSE
        return r

    def as_lin(self, v):
        if isinstance(v, Bo) and v.k == "c":
            return Lin(1 if v.p else 0)
        return v

    def compare(self, op, a, b, st, e=None):
        a, b = self.u_collapse(a, st), self.u_collapse(b, st)
        if isinstance(a, Bo) and isinstance(b, Bo) and op in ("==", "!="):
            if b.k == "c":
                r = a if b.p else bo_not(a)
            elif a.k == "c":
                r = b if a.p else bo_not(b)
            elif a == b:
                r = TRUE
            else:
                r = Bo("at", ("beq", a, b))
            return r if op == "==" else bo_not(r)
        a, b = self.as_lin(a), self.as_lin(b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.cmp_lin(op, a - b)
        import operator as O
        f = {"==": O.eq, "!=": O.ne, "<": O.lt, "<=": O.le, ">": O.gt, ">=": O.ge}[op]
        if isinstance(a, U) and isinstance(b, Lin) and b.const:
            return self.uset(a, lambda x: f(x, b.c), st)
        if isinstance(b, U) and isinstance(a, Lin) and a.const:
            return self.uset(b, lambda x: f(a.c, x), st)
        if isinstance(a, U) and isinstance(b, U) and a.s == b.s:
            S = frozenset(i for i in range(256) if f(a.m[i], b.m[i]))
            d = st.dom.get(("B", a.s), frozenset(range(256)))
            if d <= S:
                return TRUE
            if not (d & S):
                return FALSE
            return Bo("in", (a.s, S))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.loc is None or b.loc is None:
                o = b if a.loc is None else a
                r = bo_not(self.to_bool(o, st))
                return r if op == "==" else bo_not(r)
            if a.loc == b.loc:
                return self.cmp_lin(op, (a.off or Lin(0)) - (b.off or Lin(0)))
        if isinstance(a, (Str,)) and isinstance(b, Str):
            return TRUE if f(a.s, b.s) else FALSE
        if op in ("==", "!="):
            if a == b:
                r = TRUE
            else:
                x, y = sorted([a, b], key=repr)
                r = Bo("at", ("eq", x, y))
            return r if op == "==" else bo_not(r)
        if op in (">", "<="):
            r = Bo("at", ("lt", b, a))
            return r if op == ">" else bo_not(r)
        r = Bo("at", ("lt", a, b))
        return r if op == "<" else bo_not(r)

    def fit(self, node, op, l, ty, st):
        it = int_type(ty)
        if it is None:
            return l
        if l.const:
            return Lin(wrap(l.c, ty))
        r = int_range(ty)
        if self.entails(st, l - r[1]) and self.entails(st, (-l) + r[0]):
            return l
        self.hook_arith(node, op, l, ty, st)
        n = ("wrap", unq(ty), l)
        self.symty[n] = unq(ty)
        return sym(n)

    def bits_of(self, v, w, st):
        if isinstance(v, Bits):
            b = v.b[:w]
            return Bits(b + (0,) * (w - len(b)))
        if isinstance(v, U):
            return u_bits(v, w, st.dom.get(("B", v.s)))
        if isinstance(v, Lin) and v.const:
            return const_bits(v.c, w)
        if isinstance(v, App):
            return self.app_bits(v, w, st)
        return None

    def app_bits(self, v, w, st):
        return Bits([("app", (v, j)) for j in range(w)])

    def arith(self, node, op, a, b, ty, st):
        a, b = self.u_collapse(a, st), self.u_collapse(b, st)
        a, b = self.as_lin(a), self.as_lin(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-":
                if a.loc == b.loc:
                    return (a.off or Lin(0)) - (b.off or Lin(0))
                return self.mk(("pdiff", a, b), ty)
            if isinstance(b, Ptr):
                a, b = b, a
            if isinstance(b, Lin) and op in "+-":
                return Ptr(a.loc, (a.off or Lin(0)) + (b if op == "+" else -b))
            return Ptr(a.loc, (a.off or Lin(0)) + sym(self.fresh("poff", "long")))
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == "+":
                return self.fit(node, op, a + b, ty, st)
            if op == "-":
                return self.fit(node, op, a - b, ty, st)
            if op == "*" and (a.const or b.const):
                return self.fit(node, op, b.scale(a.c) if a.const else a.scale(b.c), ty, st)
            if a.const and b.const:
                x, y = a.c, b.c
                if op == "/":
                    return Lin(abs(x) // abs(y) * (1 if x * y >= 0 else -1)) if y else Lin(0)
                if op == "%":
                    return Lin(x - (abs(x) // abs(y) * (1 if x * y >= 0 else -1)) * y) if y else Lin(0)
                try:
                    r = {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if 0 <= y < 200 else 0,
                         ">>": x >> y if 0 <= y < 200 else 0}[op]
                    return Lin(wrap(r, ty) if int_type(ty) else r)
                except KeyError:
                    pass
        if isinstance(a, (U, Lin)) and isinstance(b, (U, Lin)) and (
                isinstance(a, U) or isinstance(b, U)):
            if not (isinstance(a, Lin) and not a.const) and not (
                    isinstance(b, Lin) and not b.const):
                if not (isinstance(a, U) and isinstance(b, U) and a.s != b.s):
                    s = a.s if isinstance(a, U) else b.s
                    am = a.m if isinstance(a, U) else (a.c,) * 256
                    bm = b.m if isinstance(b, U) else (b.c,) * 256

                    def g(x, y):
                        if op == "+":
                            r = x + y
                        elif op == "-":
                            r = x - y
                        elif op == "*":
                            r = x * y
                        elif op == "&":
                            r = x & y
                        elif op == "|":
                            r = x | y
                        elif op == "^":
                            r = x ^ y
                        elif op == "<<":
                            r = x << y if 0 <= y < 128 else 0
                        elif op == ">>":
                            r = x >> y if 0 <= y < 128 else 0
                        elif op == "/":
                            r = int(x / y) if y else 0
                        elif op == "%":
                            r = x - int(x / y) * y if y else 0
                        else:
                            return None
                        return wrap(r, ty) if int_type(ty) else r
                    m = [g(x, y) for x, y in zip(am, bm)]
                    if None not in m:
                        return U(s, m)
        it = int_type(ty)
        if it and op in ("&", "|", "^", "<<", ">>", "+"):
            r = self.bitop(op, a, b, it[0], st)
            if r is not None:
                return r
        n = ("op", op, a, b, unq(ty))
        if int_type(ty) and n not in self.symty:
            self.symty[n] = unq(ty)
            if isinstance(b, Lin) and b.const and b.c > 0 and op == "%":
                pass
        v = self.mk(n, ty)
        if isinstance(b, Lin) and b.const and b.c > 0 and op == "%" and isinstance(v, Lin):
            st.cons = st.cons + (v - (b.c - 1),)
        return v

    def bitop(self, op, a, b, w, st):
        if op in ("<<", ">>"):
            if not (isinstance(b, Lin) and b.const):
                return None
            A = self.bits_of(a, w, st)
            if A is None or not 0 <= b.c < w:
                return None
            if op == "<<":
                return Bits(((0,) * b.c + A.b)[:w])
            return Bits((A.b[b.c:] + (0,) * b.c))
        A, B = self.bits_of(a, w, st), self.bits_of(b, w, st)
        if A is None or B is None:
            return None
        out = []
        for x, y in zip(A.b, B.b):
            if op == "&":
                if x == 0 or y == 0:
                    z = 0
                elif x == 1:
                    z = y
                elif y == 1 or x == y:
                    z = x
                else:
                    z = ("x", ("&", x, y))
            elif op == "|":
                if x == 1 or y == 1:
                    z = 1
                elif x == 0:
                    z = y
                elif y == 0 or x == y:
                    z = x
                else:
                    z = ("x", ("|", x, y))
            elif op == "^":
                if x == 0:
                    z = y
                elif y == 0:
                    z = x
                elif x == y:
                    z = 0
                else:
                    z = ("x", ("^", x, y))
            else:  # + : exact only on disjoint supports
                if x == 0:
                    z = y
                elif y == 0:
                    z = x
                else:
                    return None
            out.append(z)
        return Bits(out)

    def e_ArraySubscriptExpr(self, e, st):
        out = []
        for s, (a, b) in self.evs([e["a"], e["b"]], st):
            if not isinstance(a, (Ptr, Ref)) and isinstance(b, (Ptr, Ref)):
                a, b = b, a
            out.append((s, self.index(a, b, e, s)))
        return out

    def index(self, a, b, e, s):
        loc = a.loc if isinstance(a, (Ref, Ptr)) else (("deref", a),)
        if isinstance(a, Ptr) and isinstance(b, Lin):
            b = (a.off or Lin(0)) + b
        self.hook_index(loc, b, s, e)
        r = loc + (("i", b),)
        self.lty.setdefault(r, unq(e["t"]))
        return Ref(r)

    def e_ConditionalOperator(self, e, st):
        out = []
        for s, c in self.ev(e["cond"], st):
            ts, fs = self.branch(s, self.to_bool(c, s))
            for x in ts:
                out += self.ev(e["a"], x)
            for x in fs:
                out += self.ev(e["b"], x)
        return out

    def e_InitListExpr(self, e, st):
        ty = unq(e["t"])
        args = e.get("args", [])
        if not self.is_class(ty) and not ty.endswith("]"):
            if len(args) == 1:
                return self.ev(args[0], st)
            return [(st, Lin(0) if int_type(ty) else self.unk(e, st))]
        rec = self.p.rec_by_type.get(ty)
        out = []
        for s, vs in self.evs(args, st):
            s = s.copy()
            loc = self.tmp(ty)
            if rec is not None:
                nb = len(rec["bases"])
                names = [("b", b) for b in rec["bases"]] + [("f", f["n"]) for f in rec["fields"]]
                for nm, v in zip(names, vs):
                    if nm[0] == "b":
                        if isinstance(v, Ref):
                            self.merge_obj(v.loc, loc, s)
                    else:
                        self.assign_val(loc + (nm,), v, s)
            else:
                for i, v in enumerate(vs):
                    self.assign_val(loc + (("i", Lin(i)),), v, s)
                s.mem[loc + (("n",),)] = Lin(len(vs))
            out.append((s, Ref(loc)))
        return out

    e_CXXParenListInitExpr = e_InitListExpr

    def merge_obj(self, src, dst, st):
        n = len(src)
        for k, v in list(st.mem.items()):
            if k[:n] == src and len(k) > n:
                st.mem[dst + k[n:]] = v

    def e_ImplicitValueInitExpr(self, e, st):
        ty = unq(e["t"])
        if ty == "bool":
            return [(st, FALSE)]
        if int_type(ty) or self.is_enum(ty):
            return [(st, Lin(0))]
        if ty.endswith("*"):
            return [(st, Ptr(None))]
        return [(st, self.unk(e, st))]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultArgExpr(self, e, st):
        return self.ev(e["e"], st)

    def e_CXXThrowExpr(self, e, st):
        if e.get("e") is None:
            self.throw(st, self.cur_exc[-1] if getattr(self, "cur_exc", None) else Exc(None, e))
            return []
        for s, v in self.ev(e["e"], st):
            self.throw(s, Exc(unq(e["e"]["t"]), e))
        return []

    def e_LambdaExpr(self, e, st):
        s = st.copy()
        loc = self.tmp(unq(e["cls"]))
        if e.get("inst"):
            self.p.__dict__.setdefault("generic", {})[e["call"]] = e["inst"]
        s.mem[loc + (("?fn",),)] = Fn(e["call"])
        fr = self.frames[-1]
        acc = [s]
        for c in e["caps"]:
            k = c["kind"]
            nxt = []
            for s in acc:
                if k == "this":
                    if fr.this is not None:
                        s.mem[loc + (("cap", "this"),)] = Ref(fr.this)
                    nxt.append(s)
                elif k == "*this":
                    if fr.this is not None:
                        self.copy_obj(fr.this, loc + (("cap", "this"),), s)
                    nxt.append(s)
                elif c.get("initcap") or k == "copy":
                    cl = loc + (("cap", c["id"]),)
                    for s2, v in (self.ev(c["init"], s) if c.get("init") else [(s, VOID)]):
                        s2 = s2.copy()
                        if c.get("initcap") and c.get("t", "").endswith("&"):
                            s2.mem[cl] = v
                        else:
                            if isinstance(v, Ref) and not self.is_class(c.get("t", "x")):
                                v = self.load(v.loc, c.get("t", ""), s2)
                            self.assign_val(cl, v, s2, e, c.get("t"))
                        nxt.append(s2)
                else:
                    cl = loc + (("cap", c["id"]),)
                    for s2, v in (self.ev(c["init"], s) if c.get("init") else [(s, VOID)]):
                        s2 = s2.copy()
                        s2.mem[cl] = v
                        nxt.append(s2)
            acc = nxt
        self.hook_lambda(e, loc, acc)
        return [(s, Ref(loc)) for s in acc]

    def hook_lambda(self, e, loc, sts):
        pass

    def e_CoawaitExpr(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            out += self.await_(e, v, s)
        return out

    def await_(self, e, v, st):
        return [(st, v)]

    def e_SourceLocExpr(self, e, st):
        return [(st, self.unk(e, st))]

    def e_CXXTypeidExpr(self, e, st):
        for c in e.get("c", []):
            if isinstance(c, dict):
                return [(s, Tok("typeid", v)) for s, v in self.ev(c, st)]
        return [(st, Tok("typeid", e["ty"]) if e.get("ty") else Tok("typeid", e.get("l"), e.get("t")))]

    def e_PredefinedExpr(self, e, st):
        return [(st, self.unk(e, st))]

    def e_CXXNewExpr(self, e, st):
        out = []
        pl = [x for x in e.get("place", []) if x]
        for s, ps in self.evs(pl, st):
            init = e.get("init")
            if init is None:
                l = self.tmp(unq(e["at"]))
                out.append((s, Ptr(ps[0].loc if ps and isinstance(ps[0], Ptr) else l)))
                continue
            for s2, v in self.ev(init, s):
                if ps and isinstance(ps[0], Ptr) and ps[0].loc:
                    s2 = s2.copy()
                    self.assign_val(ps[0].loc, v, s2, e)
                    out.append((s2, ps[0]))
                else:
                    if isinstance(v, Ref):
                        out.append((s2, Ptr(v.loc)))
                    else:
                        l = self.tmp(unq(e["at"]))
                        s2.mem[l] = v
                        out.append((s2, Ptr(l)))
        return out

    # ------------------------------------------------------------ calls
    def rec_of(self, ty):
        return self.p.rec_by_type.get(unq(ty))

    def e_CallExpr(self, e, st):
        fn = e.get("fn")
        if fn is None or fn.get("dk") not in ("Function", "CXXMethod", "CXXConversion"):
            out = []
            cal = e.get("callee")
            for s, c in (self.ev(cal, st) if cal else [(st, VOID)]):
                for s2, vs in self.evs(e.get("args", []), s):
                    c2 = c
                    if isinstance(c2, Ref):
                        c2 = self.load(c2.loc, "fnptr*", s2)
                    if isinstance(c2, Fn):
                        out += self.invoke({"id": c2.id, "qn": (c2.ref or {}).get("qn", ""),
                                            "own": True, "n": (c2.ref or {}).get("n", "")},
                                           None, vs, s2, e)
                    else:
                        out += self.invoke({"id": -1, "qn": "?", "n": "?"}, None, vs, s2, e)
            return out
        return [r for s, vs in self.evs(e.get("args", []), st)
                for r in self.invoke(fn, None, vs, s, e)]

    e_UserDefinedLiteral = e_CallExpr

    def e_CXXMemberCallExpr(self, e, st):
        out = []
        fn = e.get("fn") or {"id": -1, "qn": "?", "n": "?"}
        for s, o in self.ev(e.get("obj"), st):
            if e.get("arrow"):
                this = self.deref(o, e, s)
            elif isinstance(o, Ref):
                this = o.loc
            else:
                this = self.tmp(unq((e.get("obj") or {}).get("t", "")))
                s = s.copy()
                s.mem[this] = o
            for s2, vs in self.evs(e.get("args", []), s):
                out += self.invoke(fn, this, vs, s2, e)
        return out

    def e_CXXOperatorCallExpr(self, e, st):
        out = []
        fn = e.get("fn") or {"id": -1, "qn": "?", "n": "?"}
        args = e.get("args", [])
        meth = fn.get("dk") == "CXXMethod" and not fn.get("stat")
        order = args
        for s, vs in self.evs(order, st):
            if meth:
                o = vs[0]
                if isinstance(o, Ref):
                    this = o.loc
                else:
                    this = self.tmp(unq(args[0].get("t", "")))
                    s = s.copy()
                    s.mem[this] = o
                out += self.invoke(fn, this, vs[1:], s, e)
            else:
                out += self.invoke(fn, None, vs, s, e)
        return out

    def e_CXXConstructExpr(self, e, st, dest=None):
        fn = e["fn"]
        ty = unq(e.get("cls", e["t"]))
        args = e.get("args", [])
        out = []
        for s, vs in self.evs(args, st):
            out += self.construct(fn, ty, vs, s, e)
        return out

    e_CXXTemporaryObjectExpr = e_CXXInheritedCtorInitExpr = e_CXXConstructExpr

    def construct(self, fn, ty, vs, st, e, loc=None):
        if loc is None and e.get("elide") and len(vs) == 1 and isinstance(vs[0], Ref) \
                and vs[0].loc[0][0] == "t":
            return [(st, vs[0])]
        s = st.copy()
        tmp = loc if loc is not None else self.tmp(ty)
        self.lty[tmp] = ty
        r = []
        for s2, v in self.invoke(fn, tmp, vs, s, e, ctor=True):
            if isinstance(v, (Ref,)) or v is VOID or v is None:
                r.append((s2, v if isinstance(v, Ref) else Ref(tmp)))
            else:
                r.append((s2, v))
        return r

    def param_name(self, e):
        return None

    def invoke(self, fn, this, args, st, e, ctor=False):
        """fn: reference record {id,qn,n,...} as found at a call site"""
        self.calls += 1
        name = sq(fn.get("qn", "?"))
        r = self.hook_call(fn, st, this, args, e)
        if r is not None:
            return r
        m = self.models.get(name)
        if m is not None:
            r = m(fn, st, this, args, e)
            if r is not None:
                return r
        m = self.ordering_call(name, fn, st, this, args, e)
        if m is not None:
            return m
        m = self.model_by_pattern(name, fn, st, this, args, e, ctor)
        if m is not None:
            return m
        # closures
        rec = self.p.fns.get(fn["id"])
        if rec is not None and rec.get("body") is not None and not (
                rec.get("defaulted")) and self.inline(rec):
            if len(self.frames) < self.max_depth and \
                    sum(1 for f in self.frames if f.fn is rec) < 2:
                return self.call_body(rec, this, args, st, e, ctor)
            self.hook_unknown(e, "call depth bound at " + name)
        if ctor or fn.get("dk") == "CXXConstructor":
            return self.default_ctor(fn, rec, this, args, st, e)
        if fn.get("n") == "operator=" and this is not None and len(args) == 1 and (
                rec is None or rec.get("defaulted")):
            s = st.copy()
            v = args[0]
            if isinstance(v, Ref):
                if rec is None or unq(rec.get("rec", "")) == unq(self.lty.get(v.loc, rec.get("rec", ""))) or True:
                    if self.same_class(fn, e):
                        return self.memberwise(rec, fn, this, v.loc, s, e, True)
                self.havoc(this, s)
                return [(s, Ref(this))]
            self.assign_val(this, v, s, e)
            return [(s, Ref(this))]
        return self.external(fn, rec, this, args, st, e)

    def same_class(self, fn, e):
        ts = [unq(a.get("t", "")) for a in e.get("args", [])]
        return len(ts) == 2 and ts[0] == ts[1]

    def memberwise(self, rec, fn, dst, src, st, e, assign):
        """defaulted copy/move: copies the memory image; member hooks may be refined"""
        self.copy_obj(src, dst, st)
        return [(st, Ref(dst))]

    def default_ctor(self, fn, rec, this, args, st, e):
        s = st.copy()
        kind = e.get("ctor")
        if kind in ("copy", "move") and len(args) == 1 and isinstance(args[0], Ref):
            return self.memberwise(rec, fn, this, args[0].loc, s, e, False)
        ty = unq(e.get("cls", e.get("t", "")))
        r = self.rec_of(ty)
        if r is not None and not args and (rec is None or rec.get("defaulted") or not rec.get("body")):
            # implicit / defaulted default constructor
            return self.run_inits(r, rec, this, s, e)
        if len(args) == 1 and not isinstance(args[0], Ref) and r is None:
            s.mem[this] = Tok("new", sq(ty), args[0])
            return [(s, Ref(this))]
        s.src[this] = ((self.fresh("obj"),),)
        return self.ext_throw(fn, s, e) + [(s, Ref(this))]

    def ext_throw(self, fn, st, e):
        if not fn.get("nothrow") and self.may_throw(fn, e):
            self.throw(st.copy(), Exc(None, e, fn.get("qn", "")))
        return []

    def run_inits(self, r, rec, this, st, e):
        """default member initialisers of class record r"""
        sts = [st]
        if rec is not None and rec.get("inits"):
            return [(s, Ref(this)) for s in self.ctor_inits(rec, this, sts, e)]
        for b in r["bases"]:
            br = self.rec_of(b)
            if br:
                sts = [s2 for s in sts for s2, _ in self.run_inits(br, None, this, s, e)]
        for f in r["fields"]:
            loc = this + (("f", f["n"]),)
            self.lty[loc] = unq(f["t"])
            if f.get("init"):
                self.frames.append(Frame(self.fresh("init"), {"full": r["qn"]}, this, {}, 0))
                nxt = []
                for s in sts:
                    for s2, v in self.ev(f["init"], s):
                        s2 = s2.copy()
                        self.assign_val(loc, v, s2, e, f["t"])
                        nxt.append(s2)
                self.frames.pop()
                sts = nxt
            else:
                fr = self.rec_of(f["t"])
                if fr and not fr.get("union"):
                    sts = [s2 for s in sts for s2, _ in self.run_inits(fr, None, loc, s, e)]
                elif sq(unq(f["t"])) == "std::unique_ptr" or sq(unq(f["t"])) == "std::shared_ptr":
                    for s in sts:
                        s.mem[loc] = Ptr(None)
        return [(s, Ref(this)) for s in sts]

    def external(self, fn, rec, this, args, st, e):
        s = st.copy()
        self.ext_throw(fn, s, e)
        # mutable reference/pointer arguments and a non-const object are havocked
        ats = [unq(a.get("t", "")) if a else "" for a in e.get("args", [])]
        if e["k"] == "CXXOperatorCallExpr" and this is not None:
            ats = ats[1:]
        raw = [a for a in e.get("args", [])]
        if e["k"] == "CXXOperatorCallExpr" and this is not None:
            raw = raw[1:]
        for v, a in zip(args, raw):
            if a is None:
                continue
            t = a.get("t", "")
            if isinstance(v, Ref) and a.get("lv") and not t.startswith("const ") \
                    and not self.is_closure(v, s) and self.mutable_arg(fn, v, a, s):
                self.havoc(v.loc, s)
        if this is not None and not fn.get("cst") and not fn.get("stat") \
                and not self.is_closure(Ref(this), s):
            self.havoc(this, s)
        return [(s, self.unk(e, s, tag=fn.get("n", "u")))]

    def mutable_arg(self, fn, v, a, st):
        return True

    def is_closure(self, v, st):
        return v.loc + (("?fn",),) in st.mem

    def ctor_inits(self, rec, this, sts, e):
        for i in rec.get("inits", []):
            nxt = []
            for s in sts:
                if i.get("field"):
                    loc = this + (("f", i["field"]),)
                    x = i.get("e")
                    if x is None:
                        nxt.append(s)
                        continue
                    for s2, v in self.ev(x, s):
                        s2 = s2.copy()
                        ft = self.field_type(rec["rec"], i["field"])
                        if ft and is_ref(ft):
                            s2.mem[loc] = v if isinstance(v, Ref) else Ref(self.tmp())
                        else:
                            if ft:
                                self.lty[loc] = unq(ft)
                            self.init_field(loc, v, s2, x, ft)
                        nxt.append(s2)
                else:
                    x = i.get("e")
                    if x is None or x["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr",
                                                   "CXXInheritedCtorInitExpr"):
                        if x is not None and x["k"] == "InitListExpr":
                            for s2, v in self.ev(x, s):
                                s2 = s2.copy()
                                if isinstance(v, Ref):
                                    self.merge_obj(v.loc, this, s2)
                                nxt.append(s2)
                        else:
                            nxt.append(s)
                        continue
                    for s2, vs in self.evs(x.get("args", []), s):
                        for s3, v in self.construct(x["fn"], unq(x.get("cls", "")), vs, s2, x, loc=this):
                            nxt.append(s3)
            sts = nxt
        return sts

    def init_field(self, loc, v, st, node, ty):
        self.assign_val(loc, v, st, node, ty)

    def field_type(self, recty, name):
        r = self.rec_of(recty)
        if r is None:
            return None
        for f in r["fields"]:
            if f["n"] == name:
                return f["t"]
        return None

    def bind_param(self, p, v, loc, st):
        t = p["t"]
        self.lty[loc] = unq(t)
        if is_ref(t):
            if isinstance(v, Ref):
                st.mem[loc] = v
            else:
                l = self.tmp(unq(t.rstrip("& ")))
                st.mem[l] = v
                st.mem[loc] = Ref(l)
        else:
            if isinstance(v, Ref) and not self.is_class(t) and not unq(t).endswith("*"):
                v = self.load(v.loc, t, st)
            self.assign_val(loc, v, st, None, t)

    def call_body(self, rec, this, args, st, e, ctor=False):
        self.visited.add(rec["id"])
        fid = self.fresh("F")
        s = st.copy()
        caps = {}
        th = this
        if rec.get("lambda") and this is not None:
            n = len(this)
            for k, v in s.mem.items():
                if k[:n] == this and len(k) == n + 1 and k[n][0] == "cap":
                    if k[n][1] == "this":
                        th = v.loc if isinstance(v, Ref) else k
                    else:
                        caps[k[n][1]] = v.loc if isinstance(v, Ref) else k
            for k in list(s.src):
                if k[:n] == this and len(k) == n + 1 and k[n][0] == "cap":
                    if k[n][1] == "this":
                        th = k
                    else:
                        caps.setdefault(k[n][1], k)
        fr = Frame(fid, rec, th, caps, len(self.frames))
        # defaulted arguments are present in args already (CXXDefaultArgExpr)
        for p, v in zip(rec["params"], args):
            self.bind_param(p, v, (("v", fid, p["id"]),), s)
        self.frames.append(fr)
        self.rets.append([])
        self.tc.append([])
        try:
            sts = [s]
            if rec.get("kind") == "ctor":
                sts = self.ctor_inits(rec, this, sts, e)
            normal = []
            for s in sts:
                o = self.ex(rec["body"], s)
                normal += o.n
            rets = self.rets.pop()
            thr = self.tc.pop()
        except Exception:
            self.frames.pop()
            raise
        self.frames.pop()
        for s, x in thr:
            self.scope_gone(fid, s)
            self.throw(s, x)
        out = []
        for s in normal:
            out.append((s, Ref(this) if rec.get("kind") == "ctor" else VOID))
        for s, v in rets:
            if rec.get("kind") == "ctor":
                v = Ref(this)
            out.append((s, v))
        res = []
        for s, v in out:
            if isinstance(v, Ref) and v.loc[0][0] == "v" and v.loc[0][1] == fid \
                    and not is_ref(rec["ret"]):
                t = self.tmp(unq(rec["ret"]))
                self.copy_obj(v.loc, t, s)
                v = Ref(t)
            if isinstance(v, Ref) and not is_ref(rec["ret"]) and not self.is_class(rec["ret"]) \
                    and rec.get("kind") != "ctor" and not rec.get("coro"):
                v = self.load(v.loc, rec["ret"], s)
            self.scope_gone(fid, s)
            res.append((s, self.ret_value(rec, v, s)))
        return self.merge(res)

    def ret_value(self, rec, v, st):
        return v

    def scope_gone(self, fid, s):
        for k in [k for k in s.mem if k[0][0] == "v" and k[0][1] == fid]:
            del s.mem[k]
        for k in [k for k in s.src if k[0][0] == "v" and k[0][1] == fid]:
            del s.src[k]

    def merge(self, res):
        """drop duplicate (state, value) pairs"""
        if len(res) < 2:
            return res
        seen = {}
        for s, v in res:
            seen.setdefault((self.key(s), v), (s, v))
        if len(seen) > self.max_states:
            raise Budget("too many states")
        return list(seen.values())

    def key(self, s):
        return (frozenset(s.mem.items()), frozenset(s.cons), frozenset(s.ne),
                frozenset(s.facts.items()), frozenset(s.dom.items()),
                frozenset(s.x.items()), frozenset(s.src.items()))

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        if n is None:
            return Out([st])
        self.steps += 1
        m = getattr(self, "s_" + n["k"], None)
        if m:
            return m(n, st)
        if "t" in n or n["k"] in ("ExprWithCleanups",):
            return Out([s for s, _ in self.ev(n, st)])
        self.hook_unknown(n, "statement kind " + n["k"])
        return Out([st])

    def s_NullStmt(self, n, st):
        return Out([st])

    def s_CompoundStmt(self, n, st):
        kids = n.get("c", [])
        return self.block(kids, st)

    def block(self, kids, st):
        cur = [st]
        out = Out()
        decls = []
        self.tc.append([])
        nret = len(self.rets[-1]) if self.rets else 0
        for k in kids:
            if k is None:
                continue
            if k["k"] == "DeclStmt":
                decls += [v for v in k["vars"] if not v.get("static")]
            nxt = []
            for s in cur:
                o = self.ex(k, s)
                nxt += o.n
                out.b += o.b
                out.c += o.c
            cur = self.dedup(nxt)
            if not cur:
                break
        thr = self.tc.pop()
        out.n = cur
        # scope exit: user destructors of locals (reverse order)
        ds = [v for v in reversed(decls) if self.needs_dtor(v)]
        if ds:
            fid = self.frames[-1].fid

            def run(s):
                sts = [s]
                for v in ds:
                    loc = (("v", fid, v["id"]),)
                    nx = []
                    for x in sts:
                        nx += self.run_dtor(loc, v["t"], x)
                    sts = nx
                return sts
            out.n = [x for s in out.n for x in run(s)]
            out.b = [x for s in out.b for x in run(s)]
            out.c = [x for s in out.c for x in run(s)]
            if self.rets:
                r = self.rets[-1]
                tail = r[nret:]
                del r[nret:]
                for s, v in tail:
                    for x in run(s):
                        r.append((x, v))
            thr = [(x, ex) for s, ex in thr for x in run(s)]
        if self.tc:
            self.tc[-1] += thr
        return out

    def needs_dtor(self, v):
        if is_ref(v["t"]):
            return False
        return self.dtor_of(v["t"]) is not None

    def dtor_of(self, ty):
        r = self.rec_of(ty)
        if r is None:
            return None
        for x in r["special"]:
            if x["k"] == "dtor" and x.get("user"):
                f = self.p.fns.get(x["id"])
                if f and f.get("body"):
                    return f
        return None

    def run_dtor(self, loc, ty, st):
        d = self.dtor_of(ty)
        if d is None:
            return [st]
        r = self.hook_call({"id": d["id"], "qn": d["qn"], "n": d["n"], "own": True,
                            "dk": "CXXDestructor"}, st, loc, [], {"k": "dtor", "l": d["l"], "t": "void"})
        if r is not None:
            return [s for s, _ in r]
        return [s for s, _ in self.call_body(d, loc, [], st, {"k": "dtor", "l": d["l"], "t": "void"})]

    def dedup(self, sts):
        if len(sts) < 2:
            return sts
        d = {}
        for s in sts:
            d.setdefault(self.key(s), s)
        if len(d) > self.max_states:
            raise Budget("too many states")
        return list(d.values())

    def s_DeclStmt(self, n, st):
        cur = [st]
        for v in n["vars"]:
            nxt = []
            for s in cur:
                nxt += self.decl(v, s)
            cur = nxt
        return Out(cur)

    def decl(self, v, st):
        fr = self.frames[-1]
        loc = (("v", fr.fid, v["id"]),)
        self.lty[loc] = unq(v["t"])
        if v.get("static") or v.get("constexpr"):
            pass
        out = []
        if v.get("init") is None:
            s = st.copy()
            self.clear(loc, s)
            self.uninit(loc, v, s)
            return [s]
        for s, x in self.ev(v["init"], st):
            s = s.copy()
            if is_ref(v["t"]):
                if not isinstance(x, Ref):
                    l = self.tmp(unq(v["t"].rstrip("& ")))
                    s.mem[l] = x
                    x = Ref(l)
                s.mem[loc] = x
            elif isinstance(x, Ref) and x.loc[0][0] == "t" and len(x.loc) == 1 and (
                    self.is_class(v["t"])):
                self.move_tmp(x.loc, loc, s)
                self.lty[loc] = unq(v["t"])
            else:
                if isinstance(x, Ref) and not self.is_class(v["t"]) and not unq(
                        v["t"]).endswith("*"):
                    x = self.load(x.loc, v["t"], s)
                self.clear(loc, s)
                self.assign_val(loc, x, s, v["init"], v["t"])
            if v.get("binds"):
                base = s.mem.get(loc)
                out += self.bindings(v, loc, s)
            else:
                out.append(s)
        return out

    def bindings(self, v, loc, st):
        base = st.mem.get(loc)
        bl = base.loc if isinstance(base, Ref) else loc
        ty = unq(v["t"].rstrip("& "))
        rec = self.rec_of(ty)
        fr = self.frames[-1]
        for i, b in enumerate(v["binds"]):
            l = (("v", fr.fid, b["id"]),)
            if rec is not None and not rec["bases"] and len(rec["fields"]) >= len(v["binds"]):
                st.mem[l] = Ref(bl + (("f", rec["fields"][i]["n"]),))
            else:
                e = b.get("e")
                t = e.get("t", "") if e else ""
                el = bl + (("get", i),)
                if e and e["k"] == "MemberExpr":
                    el = bl + (("f", e["n"]),)
                st.mem[l] = Ref(el)
        return [st]

    def move_tmp(self, src, dst, st):
        self.copy_obj(src, dst, st)
        n = len(src)
        # the temporary itself dies: redirect self-references
        for k, v in list(st.mem.items()):
            if k[:n] == src:
                del st.mem[k]
        st.src.pop(src, None)

    def uninit(self, loc, v, st):
        st.src[loc] = ((self.fresh("uninit"),),)

    def s_ReturnStmt(self, n, st):
        if n.get("e") is None:
            self.rets[-1].append((st, VOID))
            return Out()
        for s, v in self.ev(n["e"], st):
            fn = self.frames[-1].fn
            if isinstance(v, Ref) and not is_ref(fn.get("ret", "")) and len(v.loc) >= 1 \
                    and v.loc[0][0] == "v":
                s = s.copy()
                t = self.tmp(unq(fn.get("ret", "")))
                self.copy_obj(v.loc, t, s)
                v = Ref(t)
            self.on_return(n, s, v)
            self.rets[-1].append((s, v))
        return Out()

    s_CoreturnStmt = s_ReturnStmt

    def on_return(self, n, st, v):
        pass

    def cond_states(self, n, st):
        """handles init/var/cond of if/switch/while; -> list of (state, value)"""
        sts = [st]
        if n.get("init"):
            sts = [x for s in sts for x in self.ex(n["init"], s).n]
        if n.get("var"):
            sts = [x for s in sts for x in self.decl(n["var"], s)]
        return [(s2, v) for s in sts for s2, v in self.ev(n["cond"], s)]

    def s_IfStmt(self, n, st):
        out = Out()
        if n.get("consteval"):
            return self.ex(n.get("else"), st)
        if n.get("constexpr") and "cx" in n:
            sts = [st]
            if n.get("init"):
                sts = self.ex(n["init"], st).n
            for s in sts:
                o = self.ex(n.get("then") if n["cx"] else n.get("else"), s)
                out.n += o.n
                out.b += o.b
                out.c += o.c
            return out
        for s, v in self.cond_states(n, st):
            ts, fs = self.branch(s, self.to_bool(v, s))
            for x in ts:
                o = self.ex(n["then"], x)
                out.n += o.n
                out.b += o.b
                out.c += o.c
            for x in fs:
                o = self.ex(n.get("else"), x)
                out.n += o.n
                out.b += o.b
                out.c += o.c
        out.n = self.dedup(out.n)
        # a variable declared in the condition dies here
        return out

    def s_SwitchStmt(self, n, st):
        body = n["body"]
        kids = body["c"] if body["k"] == "CompoundStmt" else [body]
        flat = []  # (labels or None, stmt)

        def unlabel(k):
            labels = []
            while k is not None and k["k"] in ("CaseStmt", "DefaultStmt"):
                if k["k"] == "CaseStmt":
                    lo = int(k["lhs"].get("cv", 0))
                    hi = int(k["rhs"].get("cv", lo)) if k.get("rhs") else lo
                    labels.append((lo, hi))
                else:
                    labels.append("default")
                k = k.get("sub")
            return labels, k
        for k in kids:
            flat.append(unlabel(k))
        out = Out()
        cases = [(i, l) for i, (ls, _) in enumerate(flat) for l in ls]
        for s, v in self.cond_states(n, st):
            rest = [s]
            entry = []
            for i, l in cases:
                if l == "default":
                    continue
                nrest = []
                for r in rest:
                    lo, hi = l
                    if lo == hi:
                        c = self.compare("==", v, Lin(lo), r)
                        ts, fs = self.branch(r, self.to_bool(c, r))
                    else:
                        a = self.compare(">=", v, Lin(lo), r)
                        ts, fs = [], []
                        t1, f1 = self.branch(r, a)
                        fs += f1
                        for x in t1:
                            t2, f2 = self.branch(x, self.compare("<=", v, Lin(hi), x))
                            ts += t2
                            fs += f2
                    entry += [(i, x) for x in ts]
                    nrest += fs
                rest = nrest
            d = [i for i, l in cases if l == "default"]
            if d:
                entry += [(d[0], r) for r in rest]
            else:
                rest = self.enum_exhausted(n, v, cases, rest)
                out.n += rest
            for i, x in entry:
                cur = [x]
                # one block: declarations in a switch body share the scope
                o = self.block([k for _, k in flat[i:]], x)
                out.n += o.n + o.b
                out.c += o.c
        out.n = self.dedup(out.n)
        return out

    def enum_exhausted(self, n, v, cases, rest):
        # all enumerators covered: values outside the enumeration are not considered
        return [] if n.get("covered") else rest

    def s_CaseStmt(self, n, st):
        return self.ex(n.get("sub"), st)

    s_DefaultStmt = s_CaseStmt

    def s_LabelStmt(self, n, st):
        o = Out([st])
        for k in n.get("c", []):
            o = self.ex(k, st)
        return o

    def s_BreakStmt(self, n, st):
        return Out(b=[st])

    def s_ContinueStmt(self, n, st):
        return Out(c=[st])

    def s_CXXTryStmt(self, n, st):
        self.tc.append([])
        o = self.ex(n["body"], st)
        thr = self.tc.pop()
        out = Out(list(o.n), list(o.b), list(o.c))
        for s, x in thr:
            done = False
            for h in n["catch"]:
                m = self.catches(h, x)
                if m is False:
                    continue
                s2 = s.copy()
                if h.get("var"):
                    loc = (("v", self.frames[-1].fid, h["var"]["id"]),)
                    l2 = self.tmp(unq(h["var"]["t"].rstrip("& ")))
                    s2.src[l2] = ((self.fresh("exc"),),)
                    s2.mem[loc] = Ref(l2)
                if not hasattr(self, "cur_exc"):
                    self.cur_exc = []
                self.cur_exc.append(x)
                o2 = self.ex(h["body"], s2)
                self.cur_exc.pop()
                out.n += o2.n
                out.b += o2.b
                out.c += o2.c
                if m is True:
                    done = True
                    break
            if not done:
                self.throw(s, x)
        out.n = self.dedup(out.n)
        return out

    STD_EXC = {"std::exception"}

    def catches(self, h, x):
        if h.get("all"):
            return True
        t = sq(unq(h["t"].rstrip("& ")))
        if x.ty is None:
            return None  # maybe
        xt = sq(x.ty)
        if xt == t:
            return True
        b = self.bases_of(x.ty)
        if t in b:
            return True
        if t == "std::exception" and xt.startswith("std::"):
            return True
        if b is not None and self.rec_of(x.ty) is not None:
            return False
        if t.startswith("std::") and xt.startswith("std::"):
            return self.std_exc_sub(xt, t)
        return False

    STD_H = {"std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error",
             "std::length_error": "std::logic_error", "std::logic_error": "std::exception",
             "std::runtime_error": "std::exception", "std::system_error": "std::runtime_error",
             "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception"}

    def std_exc_sub(self, a, b):
        while a:
            if a == b:
                return True
            a = self.STD_H.get(a)
        return False

    def bases_of(self, ty):
        r = self.rec_of(ty)
        out = set()
        if r is None:
            return out
        for b in r["bases"]:
            out.add(sq(b))
            out |= self.bases_of(b)
            x = sq(b)
            while x in self.STD_H:
                x = self.STD_H[x]
                out.add(x)
        return out

    # ------------------------------------------------------------ loops
    def s_WhileStmt(self, n, st):
        def cond(s):
            sts = self.decl(n["var"], s) if n.get("var") else [s]
            ts, fs = [], []
            for x in sts:
                for s2, v in self.ev(n["cond"], x):
                    a, b = self.branch(s2, self.to_bool(v, s2))
                    ts += a
                    fs += b
            return ts, fs
        return self.loop(n, [st], cond, n["body"], None)

    def s_ForStmt(self, n, st):
        sts = self.ex(n["init"], st).n if n.get("init") else [st]

        def cond(s):
            if n.get("cond") is None:
                return [s], []
            ts, fs = [], []
            for s2, v in self.ev(n["cond"], s):
                a, b = self.branch(s2, self.to_bool(v, s2))
                ts += a
                fs += b
            return ts, fs
        return self.loop(n, sts, cond, n["body"], n.get("inc"))

    def s_DoStmt(self, n, st):
        def cond(s):
            ts, fs = [], []
            for s2, v in self.ev(n["cond"], s):
                a, b = self.branch(s2, self.to_bool(v, s2))
                ts += a
                fs += b
            return ts, fs
        return self.loop(n, [st], cond, n["body"], None, post=True)

    def s_CXXForRangeStmt(self, n, st):
        sts = self.ex(n["init"], st).n if n.get("init") else [st]
        out = Out()
        for s in sts:
            for s2, r in self.ev(n["range"], s):
                rl = r.loc if isinstance(r, Ref) else self.tmp(unq(n["range"]["t"]))
                if not isinstance(r, Ref):
                    s2 = s2.copy()
                    s2.mem[rl] = r
                o = self.range_loop(n, rl, s2)
                out.n += o.n
                out.b += o.b
                out.c += o.c
        return out

    def range_items(self, n, rl, st):
        """None: unknown number of elements; else a list of element locations"""
        c = st.mem.get(rl + (("n",),))
        if isinstance(c, Lin) and c.const and c.c <= 64:
            return [rl + (("i", Lin(i)),) for i in range(c.c)]
        v = st.mem.get(rl)
        if isinstance(v, Str) and len(v.s) <= 64:
            out = []
            for i, ch in enumerate(v.s):
                l = rl + (("i", Lin(i)),)
                st.mem[l] = Lin(ord(ch))
                out.append(l)
            return out
        return None

    def range_loop(self, n, rl, st):
        fr = self.frames[-1]
        var = n["var"]
        vloc = (("v", fr.fid, var["id"]),)

        def bind(s, el):
            s = s.copy()
            self.lty[vloc] = unq(var["t"])
            if is_ref(var["t"]):
                s.mem[vloc] = Ref(el)
            else:
                if self.is_class(var["t"]) and not self.scalar_class(var["t"]):
                    self.copy_obj(el, vloc, s)
                else:
                    s.mem[vloc] = self.load(el, var["t"], s)
            if var.get("binds"):
                return self.bindings(var, vloc, s)
            return [s]
        items = self.range_items(n, rl, st)
        if items is not None:
            cur, out = [st], Out()
            for el in items:
                nx = []
                for s in cur:
                    for b in bind(s, el):
                        o = self.ex(n["body"], b)
                        nx += o.n + o.c
                        out.n += o.b
                cur = self.dedup(nx)
            out.n += cur
            return out
        cnt = self.tmp("int")
        idx = cnt
        st = st.copy()

        def cond(s):
            s = s.copy()
            a = Bo("at", ("more", self.fresh("it")))
            ts, fs = self.branch(s, a)
            res = []
            for t in ts:
                el = self.fresh_element(n, rl, t)
                res += bind(t, el)
            return res, fs
        return self.loop(n, [st], cond, n["body"], None)

    def fresh_element(self, n, rl, st):
        i = sym(self.fresh("k", "unsigned long"))
        return rl + (("i", i),)

    max_loop_iter = 60

    def loop_dom(self, st):
        return {}

    def loop(self, n, sts, cond, body, inc, post=False):
        out = Out()
        for st in sts:
            o = self.loop1(n, st, cond, body, inc, post)
            out.n += o.n
            out.b += o.b
            out.c += o.c
        out.n = self.dedup(out.n)
        return out

    def loop_pass(self, n, head, cond, body, inc, post):
        """one abstract iteration -> (exit states, back-edge states)"""
        if post:
            o = self.ex(body, head)
            ends, ex = [], list(o.b)
            for s in o.n + o.c:
                t, f = cond(s)
                ends += t
                ex += f
            return ex, ends
        ts, fs = cond(head)
        ex = list(fs)
        back = []
        for t in ts:
            o = self.ex(body, t)
            ex += o.b
            for s in o.n + o.c:
                if inc is not None:
                    back += [s2 for s2, _ in self.ev(inc, s)]
                else:
                    back.append(s)
        return ex, self.dedup(back)

    def diff(self, a, b):
        """locations live at the head whose value differs between a and b"""
        d = set()
        for k, v in a.mem.items():
            if b.mem.get(k) != v:
                d.add(k)
        roots = self._roots(a)
        for k, v in b.mem.items():
            if k not in a.mem and (k, v) not in self.lazy and (
                    k[0][0] in ("g", "ext", "deref", "this") or k[:1] in roots):
                if k[0][0] == "g" and self.const_global(k[0]):
                    continue
                d.add(k)
        for k, v in b.src.items():
            if a.src.get(k) != v and (k[:1] in roots or k[0][0] in ("ext", "deref", "this")):
                if k[0][0] == "g" and self.const_global(k[0]):
                    continue
                d.add(k)
        return d

    def const_global(self, root):
        g = self.p.var_by_id.get(root[2]) if len(root) > 2 else None
        return g is None or g["t"].startswith("const ") or g["t"].endswith("const")

    def _roots(self, a):
        r = set(k[:1] for k in a.mem)
        r |= set(k[:1] for k in a.src)
        return r

    def loop1(self, n, st, cond, body, inc, post):
        # phase 1: which locations does the body write?
        W = set()
        save_ret, save_tc = self.rets, self.tc
        self.quiet = getattr(self, "quiet", 0) + 1
        invs = ()
        try:
            for it in range(self.max_loop_iter):
                self.rets, self.tc = [[]] + [[]], [[]]
                new = set()
                self.heads(st, W, (), n, cond, body, inc, post, grow=new)
                if not new:
                    break
                W |= new
            else:
                raise Budget("loop does not stabilise at line %s" % n.get("l"))
            # phase 2: linear invariants over the written numeric locations
            num = [w for w in W if isinstance(st.mem.get(w), (Lin, Ptr))
                   and not self.discrete(w, st.mem.get(w))]
            cands = self.candidates(st, num)
            probed = False
            while cands or not probed:
                self.rets, self.tc = [[]] + [[]], [[]]
                heads = self.heads(st, W, tuple(cands), n, cond, body, inc, post)
                keep = []
                for c in cands:
                    if all(self.holds(b, c) for h, backs in heads for b in backs):
                        keep.append(c)
                if len(keep) == len(cands):
                    if probed:
                        break
                    probed = True
                    self.cur_W = W
                    more = [c for c in self.probe(st, num, heads) if c not in cands]
                    if not more:
                        break
                    # with the new candidates some of the dropped ones may hold as well
                    keep = self.candidates(st, num) + more
                cands = keep
            invs = tuple(cands)
        finally:
            self.quiet -= 1
            self.rets, self.tc = save_ret, save_tc
        # phase 3: the stable pass, with its effects recorded
        exits = []
        self.final_exits = exits
        hs = self.heads(st, W, invs, n, cond, body, inc, post, exits=exits)
        self.on_loop(n, st, hs, exits)
        return Out(self.dedup(exits))

    def on_loop(self, n, st, heads, exits):
        pass

    def numval(self, st, loc):
        v = st.mem.get(loc)
        if isinstance(v, Lin):
            return v
        if isinstance(v, Ptr):
            return v.off if v.off is not None else None
        return None

    def candidates(self, st, num):
        c = []
        terms = []
        for l in num:
            v = self.numval(st, l)
            if v is not None:
                terms.append(l)
        syms = set()
        for k in st.cons:
            syms.update(k.syms())
        for l in terms:
            syms.update(self.numval(st, l).syms())
        for k, v in st.mem.items():
            if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
                if len(syms) < 24:
                    syms.add(v.t[0][0])
        for l in terms:
            v = self.numval(st, l)
            c.append((l, None, -1, v))      # value >= initial
            c.append((l, None, 1, -v))      # value <= initial
            for s in syms:
                if self.entails(st, v - sym(s)):
                    c.append((l, None, 1, -sym(s)))
                if self.entails(st, sym(s) - v):
                    c.append((l, None, -1, sym(s)))
            for m in terms:
                if m != l:
                    w = self.numval(st, m)
                    c.append((l, m, 0, -(v - w)))   # l - m <= init difference
        return c

    def inst(self, st, c):
        l, m, sgn, k = c
        v = self.numval(st, l)
        if v is None:
            return None
        if m is not None:
            w = self.numval(st, m)
            if w is None:
                return None
            return v - w + k
        return v.scale(sgn) + k

    def probe(self, st, num, heads):
        """further invariant candidates, from one pass under the linear ones"""
        return []

    def suppose(self, st, c):
        """st with invariant c assumed; None if contradictory"""
        i = self.inst(st, c)
        return st if i is None else self.assume_le(st, i)

    def holds(self, st, c):
        i = self.inst(st, c)
        return i is not None and self.entails(st, i)

    def heads(self, st, W, invs, n, cond, body, inc, post, exits=None, grow=None):
        """partitioned head states with their back-edge states"""
        work = [st]
        seen = {}
        res = []
        first = True
        while work:
            a = self.canon_loop(work.pop(), st)
            pk = []
            for w in sorted(W, key=repr):
                v = a.mem.get(w)
                if v is not None and self.discrete(w, v):
                    pk.append((w, v))
                else:
                    pk.append((w, None))
            ld = self.loop_dom(a)
            key = (tuple(pk), frozenset(a.x.items()), frozenset(ld.items()))
            if key in seen:
                continue
            seen[key] = 1
            if len(seen) > 200:
                raise Budget("too many loop partitions")
            if post and first:
                h = a
            else:
                h = st.copy()
                h.x = dict(a.x)
                h.dom.update(ld)
                for w, v in pk:
                    n_ = len(w)
                    if v is not None:
                        self.clear(w, h)
                        h.mem[w] = v
                    else:
                        iv = st.mem.get(w)
                        self.clear(w, h)
                        if isinstance(iv, Ptr) and iv.loc is not None:
                            h.mem[w] = Ptr(iv.loc, sym(self.fresh("it", "long")))
                        elif isinstance(iv, Lin):
                            h.mem[w] = sym(self.fresh("lv", self.lty.get(w)))
                        elif isinstance(iv, (Bo, U, Bits, App)) or (iv is not None):
                            h.mem[w] = self.mk(self.fresh("lv"), self.lty.get(w, "int"))
                        else:
                            h.src[w] = ((self.fresh("lv"),),)
                bad = False
                for c in invs:
                    h2 = self.suppose(h, c)
                    if h2 is None:
                        bad = True
                        break
                    h = h2
                if bad:
                    continue
                h = self.post_head(h)
            first = False
            ex, back = self.loop_pass(n, h, cond, body, inc, post)
            if grow is not None:
                for b in back:
                    grow |= self.diff(h, self.canon_loop(b, st)) - W
                if grow:
                    return res
            if exits is not None:
                exits += ex
            res.append((h, back))
            work += back
        return res

    # ------------------------------------------------------------ library models
    def std_models(self):
        M = self.models

        def ident(fn, st, this, args, e):
            return [(st, args[0])]
        for n in ("std::move", "std::forward", "std::as_const", "std::launder",
                  "std::move_if_noexcept", "std::forward_like", "__builtin_expect",
                  "std::__addressof_x"):
            M[n] = ident

        def addressof(fn, st, this, args, e):
            v = args[0]
            if isinstance(v, Ref):
                l = v.loc
                if l and l[-1][0] == "i" and isinstance(l[-1][1], Lin):
                    return [(st, Ptr(l[:-1], l[-1][1]))]
                return [(st, Ptr(l))]
            return None
        M["std::addressof"] = M["std::__addressof"] = M["__builtin_addressof"] = addressof

        def noret(fn, st, this, args, e):
            if sq(fn["qn"]) == "__assert_fail":
                self.hook_assert(st, e)
            return []
        for n in ("__assert_fail", "std::terminate", "std::abort", "abort", "exit",
                  "__builtin_unreachable", "std::unreachable", "__assert"):
            M[n] = noret

        def invoke(fn, st, this, args, e):
            f, rest = args[0], args[1:]
            return self.call_value(f, rest, st, e)
        M["std::invoke"] = M["std::invoke_r"] = M["std::__invoke"] = invoke

        def to_underlying(fn, st, this, args, e):
            return [(st, args[0])]
        M["std::to_underlying"] = to_underlying

        def minmax(fn, st, this, args, e):
            if len(args) != 2:
                return None
            a, b = args
            t = (e.get("t") or "").rstrip("& ")
            x, y = self.rv(a, t, st), self.rv(b, t, st)
            lt = self.compare("<", y, x, st)
            ts, fs = self.branch(st, lt)
            if sq(fn["qn"]) == "std::min":
                return [(s, b) for s in ts] + [(s, a) for s in fs]
            lt = self.compare("<", x, y, st)
            ts, fs = self.branch(st, lt)
            return [(s, b) for s in ts] + [(s, a) for s in fs]
        M["std::min"] = M["std::max"] = minmax

        def exchange(fn, st, this, args, e):
            s = st.copy()
            a, b = args
            t = unq(e.get("t", ""))
            old = self.load(a.loc, t, s)
            if isinstance(old, Ref):
                l = self.tmp(t)
                self.copy_obj(old.loc, l, s)
                old = Ref(l)
            if isinstance(b, Ref) and not self.is_class(t):
                b = self.load(b.loc, t, s)
            self.assign_val(a.loc, b, s, e)
            return [(s, old)]
        M["std::exchange"] = exchange

        def swap(fn, st, this, args, e):
            s = st.copy()
            if this is not None or len(args) != 2 or not all(isinstance(a, Ref) for a in args):
                return None
            a, b = args
            t = self.tmp()
            self.copy_obj(a.loc, t, s)
            self.copy_obj(b.loc, a.loc, s)
            self.copy_obj(t, b.loc, s)
            self.clear(t, s)
            return [(s, VOID)]
        M["std::swap"] = M["std::ranges::swap"] = swap
        for n in ("std::isdigit", "isdigit"):
            M[n] = self.ctype(lambda c: 48 <= c <= 57)
        M["isalpha"] = M["std::isalpha"] = self.ctype(lambda c: 65 <= c <= 90 or 97 <= c <= 122)
        M["isalnum"] = M["std::isalnum"] = self.ctype(
            lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57)
        M["isspace"] = M["std::isspace"] = self.ctype(lambda c: c == 32 or 9 <= c <= 13)
        M["isupper"] = M["std::isupper"] = self.ctype(lambda c: 65 <= c <= 90)
        M["islower"] = M["std::islower"] = self.ctype(lambda c: 97 <= c <= 122)
        M["isxdigit"] = M["std::isxdigit"] = self.ctype(
            lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102)
        M["iscntrl"] = M["std::iscntrl"] = self.ctype(lambda c: 0 <= c < 32 or c == 127)
        M["tolower"] = M["std::tolower"] = self.ctype(lambda c: c + 32 if 65 <= c <= 90 else c)
        M["toupper"] = M["std::toupper"] = self.ctype(lambda c: c - 32 if 97 <= c <= 122 else c)

    def hook_ctype(self, name, v, st, e):
        pass

    def ctype(self, f):
        def m(fn, st, this, args, e):
            v = args[0]
            if isinstance(v, Ref):
                v = self.load(v.loc, "int", st)
            self.hook_ctype(fn["n"], v, st, e)
            if isinstance(v, Lin) and v.const:
                return [(st, Lin(int(f(v.c))))]
            if isinstance(v, U):
                return [(st, U(v.s, tuple(int(f(x)) for x in v.m)))]
            return [(st, self.mk(("ctype", fn["n"], v), e.get("t", "int")))]
        return m

    def call_value(self, f, args, st, e):
        """invoke a callable value (closure object, function)"""
        if isinstance(f, Ref):
            v = st.mem.get(f.loc + (("?fn",),))
            if isinstance(v, Fn):
                return self.call_closure(f.loc, v.id, args, st, e)
            m = st.mem.get(f.loc)
            if isinstance(m, Fn):
                f = m
        if isinstance(f, Fn):
            return self.invoke({"id": f.id, "qn": (f.ref or {}).get("qn", "?"), "n": (f.ref or {}).get("n", "?"),
                                "own": True}, None, args, st, e)
        return self.external({"id": -1, "qn": "?callable", "n": "callable"}, None, None, [], st,
                             dict(e, args=[])) if False else self.unknown_call(f, args, st, e)

    def unknown_call(self, f, args, st, e):
        s = st.copy()
        self.ext_throw({"qn": "?callable", "n": "callable"}, s, e)
        return [(s, self.unk(e, s, "callable"))]

    def call_closure(self, loc, fid, args, st, e):
        rec = self.p.fns.get(fid)
        if rec is None or rec.get("body") is None:
            # generic lambda: the instantiation, when the argument types leave one
            for m in (self.inst_match, lambda *a: True):
                c = [self.p.fns[i] for i in getattr(self.p, "generic", {}).get(fid, [])
                     if self.p.fns.get(i) and self.p.fns[i].get("body")
                     and len(self.p.fns[i]["params"]) == len(args) and m(self.p.fns[i], args, st)]
                if len(c) == 1:
                    return self.call_body(c[0], loc, args, st, e)
            return self.unknown_call(Ref(loc), args, st, e)
        return self.call_body(rec, loc, args, st, e)

    def inst_match(self, rec, args, st):
        for p, a in zip(rec["params"], args):
            if isinstance(a, Ref) and a.loc in self.lty and \
                    unq(self.lty[a.loc]) != unq(p["t"].rstrip("& ")):
                return False
        return True

    def model_by_pattern(self, name, fn, st, this, args, e, ctor):
        # call through a closure object: operator() of a lambda
        if fn.get("n") == "operator()" and this is not None:
            v = st.mem.get(this + (("?fn",),))
            if isinstance(v, Fn):
                rec = self.p.fns.get(fn["id"]) or self.p.fns.get(v.id)
                if rec is not None and rec.get("body") is not None:
                    return self.call_body(rec, this, args, st, e)
        if ctor and e.get("ctor") in ("copy", "move") and args and isinstance(args[0], Ref) \
                and this is not None and self.is_closure(args[0], st):
            s = st.copy()
            self.copy_obj(args[0].loc, this, s)
            return [(s, Ref(this))]
        if name in ("std::array::operator[]", "std::array::at") and this is not None:
            i = args[0]
            if isinstance(i, Ref):
                i = self.load(i.loc, "unsigned long", st)
            return [(st, self.index(Ref(this), i, e, st))]
        r = self.sv_model(name, fn, st, this, args, e, ctor)
        return r

    # string_view as a scalar value: Str or Tok, or Ptr-based view ("sv", Ptr, len)
    def sv_model(self, name, fn, st, this, args, e, ctor):
        if not name.startswith("std::basic_string_view"):
            return None
        n = fn["n"]
        if ctor or fn.get("dk") == "CXXConstructor":
            if not args:
                return [(st, Str(""))]
            a = args[0]
            if len(args) == 1:
                if isinstance(a, Ref):
                    a = self.load(a.loc, "std::basic_string_view<char>", st)
                if isinstance(a, Ptr) and a.loc and a.loc[0][0] == "strlit" and (
                        a.off is None or a.off == Lin(0)):
                    v = st.mem.get(a.loc)
                    if isinstance(v, Str):
                        return [(st, v)]
                if isinstance(a, (Str, Tok)):
                    return [(st, a)]
                return [(st, Tok("sv", a))]
            a = [self.rv(x, "long", st) if isinstance(x, Ref) else x for x in args]
            if isinstance(a[0], Ptr) and a[0].loc and a[0].loc[0][0] == "strlit" and isinstance(
                    a[1], Lin) and a[1].const:
                v = st.mem.get(a[0].loc)
                o = a[0].off or Lin(0)
                if isinstance(v, Str) and o.const and 0 <= o.c <= len(v.s):
                    return [(st, Str(v.s[o.c:o.c + a[1].c]))]
            return [(st, Tok("sv", *a))]
        v = st.mem.get(this) if this is not None else None
        if this is not None and v is None:
            v = self.load(this, "std::basic_string_view<char>", st)
        if n in ("size", "length"):
            if isinstance(v, Str):
                return [(st, Lin(len(v.s)))]
            k = ("len", v)
            self.symty[k] = "unsigned long"
            st.cons = st.cons + (sym(k) - (1 << 62),) if (sym(k) - (1 << 62)) not in st.cons else st.cons
            return [(st, sym(k))]
        if n == "empty":
            if isinstance(v, Str):
                return [(st, TRUE if not v.s else FALSE)]
            k = ("len", v)
            self.symty[k] = "unsigned long"
            return [(st, Bo("eq", sym(k)))]
        if n in ("data", "begin", "cbegin"):
            return [(st, Ptr((("chars", v),), Lin(0)))]
        if n in ("end", "cend"):
            if isinstance(v, Str):
                return [(st, Ptr((("chars", v),), Lin(len(v.s))))]
            k = ("len", v)
            self.symty[k] = "unsigned long"
            st.cons = st.cons + (sym(k) - (1 << 62),) if (sym(k) - (1 << 62)) not in st.cons else st.cons
            return [(st, Ptr((("chars", v),), sym(k)))]
        if n in ("operator[]", "at"):
            i = args[0]
            if isinstance(i, Ref):
                i = self.load(i.loc, "unsigned long", st)
            self.hook_index((("chars", v),), i, st, e)
            loc = (("chars", v), ("i", i))
            return [(st, Ref(loc))]
        if n in ("front", "back"):
            if n == "front":
                i = Lin(0)
            elif isinstance(v, Str):
                i = Lin(len(v.s) - 1)
            else:
                k = ("len", v)
                self.symty[k] = "unsigned long"
                i = sym(k) - 1
            self.hook_index((("chars", v),), i, st, e)
            return [(st, Ref((("chars", v), ("i", i))))]
        if n == "substr":
            a = [self.rv(x, "unsigned long", st) if isinstance(x, Ref) else x for x in args]
            if isinstance(v, Str) and all(isinstance(x, Lin) and x.const for x in a):
                p = a[0].c if a else 0
                if p <= len(v.s):
                    return [(st, Str(v.s[p:] if len(a) < 2 or a[1].c >= len(v.s) - p
                                     else v.s[p:p + a[1].c]))]
            return [(st, Tok("substr", v, *a))]
        return None
