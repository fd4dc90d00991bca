"""Text domain: abstract interpretation of code over character sequences.

A text is an unbounded, immutable character array; views are pairs of linear positions in
it.  The state carries facts of the form "every character in [a, b) belongs to S" and
"the character at i belongs to S"; loops over characters are solved with inferred
invariants of that form, and the string algorithms of the standard library are modelled
by their postconditions.  Nothing bounds the length of a text.
"""
from values import *
from facts import AnalysisError, walk
import facts
from absint import Interp, St, Exc, Frame, Out, sq, unq, is_ref

ALL = frozenset(range(256))
SCH = tuple(b if b < 128 else b - 256 for b in range(256))
SPACE = frozenset([32, 9, 10, 11, 12, 13])
DIGIT = frozenset(range(48, 58))
NPOS = (1 << 64) - 1
BIG = 1 << 62


def inv(S):
    return ALL - S


def bset(s):
    return frozenset(ord(c) & 255 for c in s)


class V:
    """view [lo, hi) of text root"""
    __slots__ = ("root", "lo", "hi")

    def __init__(self, root, lo, hi):
        self.root, self.lo, self.hi = root, lo, hi

    def __hash__(self):
        return hash((self.root, self.lo, self.hi))

    def __eq__(self, o):
        return isinstance(o, V) and (self.root, self.lo, self.hi) == (o.root, o.lo, o.hi)

    @property
    def n(self):
        return self.hi - self.lo

    def __repr__(self):
        return "%s[%r..%r)" % (self.root if isinstance(self.root, str) else "lower(%s)" % self.root[1],
                               self.lo, self.hi)


class Cat:
    """concatenation; parts are V, Str, ('ch', U|Lin), ('rep', n, c), ('fmt', value, spec)"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Cat):
                out += p.parts
            elif isinstance(p, Str) and not p.s:
                pass
            elif isinstance(p, Str) and out and isinstance(out[-1], Str):
                out[-1] = Str(out[-1].s + p.s)
            else:
                out.append(p)
        self.parts = tuple(out)

    def __hash__(self):
        return hash(self.parts)

    def __eq__(self, o):
        return isinstance(o, Cat) and self.parts == o.parts

    def __repr__(self):
        return "cat(%s)" % ", ".join(map(repr, self.parts))


def cat(*ps):
    c = Cat(ps)
    if not c.parts:
        return Str("")
    return c.parts[0] if len(c.parts) == 1 and isinstance(c.parts[0], (V, Str)) else c


def transpose(R):
    out = [0] * 256
    for i, x in enumerate(R):
        while x:
            j = (x & -x).bit_length() - 1
            out[j] |= 1 << i
            x &= x - 1
    return tuple(out)


def sub_rel(S, R):
    return all(not (s & ~r) for s, r in zip(S, R))


def root_base(root):
    """(base text, table) of a possibly mapped text"""
    if isinstance(root, tuple) and root[0] == "map":
        return root[1], root[2]
    return root, SCH


class Text(Interp):
    scalars = {"std::basic_string_view", "std::basic_string", "std::type_index", "std::type_info"}
    max_states = 20000
    budget = 4000000

    def __init__(self, prog, rep=None):
        Interp.__init__(self, prog)
        self.rep = rep
        self.bad = []

    def run(self, f, args, st, this=None):
        """analyse one call of f from state st -> ([(state, value)], [(state, exception)])"""
        self.frames = [Frame("client", {"full": "client", "file": "", "ret": "void"}, None, {}, 0)]
        self.rets = [[]]
        self.tc = [[]]
        e = {"k": "CallExpr", "t": f["ret"], "args": [], "l": f["l"]}
        res = self.call_body(f, this, args, st, e)
        return res, self.tc.pop()

    def complain(self, node, msg):
        f = self.frames[-1].fn if self.frames else {}
        if not getattr(self, "quiet", 0):
            self.bad.append((f, (node or {}).get("l", 0), msg))

    # ---------------------------------------------------------------- making texts
    def text(self, name, st, lo=None, hi=None):
        """a fresh unknown text of unknown length"""
        n = ("n", name)
        self.symty[n] = "unsigned long"
        st.cons = st.cons + (sym(n) - BIG,)
        return V(name, Lin(0), sym(n))

    # ---------------------------------------------------------------- view storage
    def store(self, loc, v, st, node=None, ty=None):
        if isinstance(v, V):
            if ty:
                self.lty.setdefault(loc, unq(ty))
            st.mem[loc] = Tok("view", v.root)
            for n, x in (("lo", v.lo), ("hi", v.hi)):
                st.mem[loc + ((n,),)] = x
                self.lty[loc + ((n,),)] = "long"
            return
        for n in ("lo", "hi"):
            st.mem.pop(loc + ((n,),), None)
        Interp.store(self, loc, v, st, node, ty)

    def load(self, loc, ty, st):
        v = st.mem.get(loc)
        if isinstance(v, Tok) and v.k[:1] == ("view",):
            lo, hi = st.mem.get(loc + (("lo",),)), st.mem.get(loc + (("hi",),))
            if lo is None or hi is None:
                raise AnalysisError("view lost its bounds")
            return V(v.k[1], lo, hi)
        return Interp.load(self, loc, ty, st)

    def txt(self, v, st):
        """text value of an argument"""
        if isinstance(v, Ref):
            v = self.load(v.loc, "std::basic_string_view<char>", st)
        if isinstance(v, Ptr) and v.loc and v.loc[0][0] == "strlit":
            s = st.mem.get(v.loc)
            if isinstance(s, Str) and (v.off is None or v.off == Lin(0)):
                z = s.s.find("\0")
                return s if z < 0 else Str(s.s[:z])
        return v

    def e_MaterializeTemporaryExpr(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            if isinstance(v, Ref):
                out.append((s, v))
            else:
                loc = self.tmp(unq(e["t"]))
                self.store(loc, v, s)
                out.append((s, Ref(loc)))
        return out

    # ---------------------------------------------------------------- characters
    def chsym(self, root, i, st):
        """symbol of the character at position i of base text root"""
        s = ("ch", root, i)
        if ("B", s) in st.dom:
            return s
        for k in st.dom:
            if k[0] == "B" and isinstance(k[1], tuple) and k[1][0] == "ch" and k[1][1] == root:
                d = k[1][2] - i
                if d.const:
                    if d.c == 0:
                        return k[1]
                elif self.entails(st, d) and self.entails(st, -d):
                    return k[1]
        return s

    def char_at(self, root, i, st):
        base, tab = root_base(root)
        s = self.chsym(base, i, st)
        d = st.dom.get(("B", s), ALL)
        for f in list(st.facts):
            if isinstance(f, tuple) and f[0] == "seg" and f[1] == base and not d <= f[4]:
                if self.entails(st, f[2] - i) and self.entails(st, i - f[3] + 1):
                    d = d & f[4]
            elif isinstance(f, tuple) and f[0] == "trim" and f[1] == base and d & SPACE:
                if self.entails(st, f[2] - f[3] + 1) and (
                        self.same(st, f[2], i) or self.same(st, f[3] - 1, i)):
                    d = d - f[4]
        st.dom[("B", s)] = d
        return U(s, tab)

    def same(self, st, a, b):
        d = a - b
        return d.c == 0 if d.const else (self.entails(st, d) and self.entails(st, -d))

    def dom_at(self, root, i, st):
        u = self.char_at(root, i, st)
        return st.dom[("B", u.s)]

    def hook_load(self, loc, ty, st):
        if len(loc) == 2 and loc[0][0] == "txt" and loc[1][0] == "i":
            return self.char_at(loc[0][1], loc[1][1], st)
        return None

    def hook_index(self, base, idx, st, node):
        pass

    def deref_check(self, root, i, st, node):
        """obligation: position i lies inside text root"""
        base, _ = root_base(root)
        n = ("n", base)
        self.obliged = getattr(self, "obliged", 0) + 1
        if not (self.entails(st, -i) and self.entails(st, i - sym(n) + 1)):
            self.complain(node, "reads a character outside the text")

    def e_UnaryOperator(self, e, st):
        if e["op"] == "*":
            out = []
            for s, v in self.ev(e["e"], st):
                if isinstance(v, Ptr) and v.loc and v.loc[0][0] == "txt":
                    i = v.off or Lin(0)
                    self.deref_check(v.loc[0][1], i, s, e)
                    out.append((s, Ref(v.loc + (("i", i),))))
                    continue
                if isinstance(v, Ptr):
                    out.append((s, Ref(self.deref(v, e, s))))
                else:
                    out += self.rewrap(e, s, v)
            return out
        return Interp.e_UnaryOperator(self, e, st)

    def rewrap(self, e, s, v):
        return Interp.e_UnaryOperator(self, dict(e, e={"k": "?val", "v": v, "t": e["e"].get("t", "")}), s)

    def ev(self, e, st):
        if e is not None and e.get("k") == "?val":
            return [(st, e["v"])]
        return Interp.ev(self, e, st)

    def index(self, a, b, e, s):
        loc = a.loc if isinstance(a, (Ref, Ptr)) else None
        if loc and loc[0][0] == "txt" and isinstance(b, Lin):
            i = (a.off or Lin(0)) + b if isinstance(a, Ptr) else b
            self.deref_check(loc[0][1], i, s, e)
            return Ref(loc[:1] + (("i", i),))
        return Interp.index(self, a, b, e, s)

    # ---------------------------------------------------------------- segment facts
    def add_seg(self, st, root, a, b, S):
        """assume: all characters of [a, b) are in S"""
        base, _ = root_base(root)
        if S == ALL:
            return st
        st.facts[("seg", base, a, b, S)] = True
        return st

    def entails_seg(self, st, root, a, b, S):
        base, _ = root_base(root)
        if S == ALL:
            return True
        cur = a
        for _ in range(12):
            if self.entails(st, b - cur):
                return True
            ok = False
            s = self.chsym(base, cur, st)
            d = st.dom.get(("B", s))
            if d is not None and d <= S:
                cur = cur + 1
                continue
            for f in st.facts:
                if isinstance(f, tuple) and f[0] == "seg" and f[1] == base and f[4] <= S \
                        and self.entails(st, f[2] - cur) and self.entails(st, cur - f[3] + 1):
                    cur = f[3]
                    ok = True
                    break
            if ok:
                continue
            # an upper bound may hold without cur < f[3] being known
            for f in st.facts:
                if isinstance(f, tuple) and f[0] == "seg" and f[1] == base and f[4] <= S \
                        and self.entails(st, f[2] - cur) and self.entails(st, b - f[3]):
                    return True
            for f in st.facts:
                if isinstance(f, tuple) and f[0] == "seg" and f[1] == base and f[4] <= S \
                        and self.same(st, f[2], cur) and self.entails(st, cur - f[3]):
                    cur = f[3]
                    ok = True
                    break
            if not ok:
                # [cur, b): the last characters may be known one by one
                if not self.entails(st, b - cur):
                    s = self.chsym(base, b - 1, st)
                    d = st.dom.get(("B", s))
                    if d is not None and d <= S:
                        b = b - 1
                        continue
                return False
        return False

    def split_char(self, st, root, i, S):
        """(states where char at i in S, states where not)"""
        u = self.char_at(root, i, st)
        return self.branch(st, self.uset(u, lambda x: True, st) if S == ALL else
                           self.charset(u, S, st))

    def charset(self, u, S, st):
        """literal: the (mapped) char value u, as a byte, is in S"""
        return self.uset(u, lambda x: (x & 255) in S, st)

    # ---------------------------------------------------------------- pairs of characters
    # a relation over byte pairs is a tuple of 256 bit masks
    FULL = (1 << 256) - 1

    def compare(self, op, a, b, st, e=None):
        a, b = self.u_collapse(a, st), self.u_collapse(b, st)
        if isinstance(a, U) and isinstance(b, U) and a.s != b.s:
            import operator as O
            f = {"==": O.eq, "!=": O.ne, "<": O.lt, "<=": O.le, ">": O.gt, ">=": O.ge}[op]
            key = (op, a.m, b.m)
            memo = self.__dict__.setdefault("_pm", {})
            R = memo.get(key)
            if R is None:
                R = memo[key] = tuple(sum(1 << j for j in range(256) if f(a.m[i], b.m[j]))
                                      for i in range(256))
            return self.pair_lit(a.s, b.s, R)
        return Interp.compare(self, op, a, b, st, e)

    def pair_lit(self, s1, s2, R):
        if repr(s2) < repr(s1):
            s1, s2, R = s2, s1, transpose(R)
        return Bo("pair", (s1, s2, R))

    def assume(self, st, b):
        if b.k == "not" and b.p.k == "pair":
            s1, s2, R = b.p.p
            b = Bo("pair", (s1, s2, tuple(self.FULL ^ x for x in R)))
        if b.k != "pair":
            return Interp.assume(self, st, b)
        s1, s2, R = b.p
        d1, d2 = st.dom.get(("B", s1), ALL), st.dom.get(("B", s2), ALL)
        P = st.dom.get(("P", s1, s2))
        m2 = sum(1 << j for j in d2)
        nP = tuple((R[i] & m2 & (P[i] if P else self.FULL)) if i in d1 else 0 for i in range(256))
        n1 = frozenset(i for i in range(256) if nP[i])
        if not n1:
            return None
        allm = 0
        for x in nP:
            allm |= x
        n2 = frozenset(j for j in range(256) if allm >> j & 1)
        st = st.copy()
        st.dom[("P", s1, s2)] = nP
        st.dom[("B", s1)], st.dom[("B", s2)] = n1, n2
        return st

    def pair_at(self, st, r1, i1, r2, i2):
        """what is known about the characters at i1 of r1 and i2 of r2, as a relation"""
        s1, s2 = self.chsym(r1, i1, st), self.chsym(r2, i2, st)
        d1, d2 = st.dom.get(("B", s1), ALL), st.dom.get(("B", s2), ALL)
        m2 = sum(1 << j for j in d2)
        R = tuple(m2 if i in d1 else 0 for i in range(256))
        for k, P in st.dom.items():
            if k[0] == "P":
                if k[1:] == (s1, s2):
                    R = tuple(x & y for x, y in zip(R, P))
                elif k[1:] == (s2, s1):
                    R = tuple(x & y for x, y in zip(R, transpose(P)))
        return R

    def entails_pairs(self, st, r1, a, b, r2, D, R):
        """for all t in [a, b): R(r1[t], r2[t + D])"""
        cur = a
        for _ in range(12):
            if self.entails(st, b - cur):
                return True
            done = False
            for f in st.facts:
                if isinstance(f, tuple) and f[0] == "pseg":
                    _, q1, x, y, q2, E, S = f
                    if (q1, q2) == (r2, r1):
                        q1, q2, x, y, E, S = q2, q1, x + E, y + E, -E, transpose(S)
                    if (q1, q2) == (r1, r2) and self.same(st, E, D) and sub_rel(S, R) and \
                            self.entails(st, x - cur):
                        if self.entails(st, b - y):
                            return True
                        if self.entails(st, cur - y):
                            if self.same(st, cur, y):
                                continue
                            cur, done = y, True
                            break
            if done:
                continue
            if sub_rel(self.pair_at(st, r1, b - 1, r2, b - 1 + D), R):
                b = b - 1
                continue
            if sub_rel(self.pair_at(st, r1, cur, r2, cur + D), R):
                cur = cur + 1
                continue
            return False
        return False

    # ---------------------------------------------------------------- loop invariants
    def candidates(self, st, num):
        c = Interp.candidates(self, st, num)
        for l in num:
            v = self.numval(st, l)
            if v is None:
                continue
            c.append((l, None, -1, Lin(0)))
            if l[-1] in (("lo",), ("hi",)):
                o = self.numval(st, l[:-1] + (("hi",) if l[-1] == ("lo",) else ("lo",),))
                if o is not None:
                    c.append((l, None, -1, o) if l[-1] == ("hi",) else (l, None, 1, -o))
        return c

    def discrete(self, loc, v):
        # "not found" is told apart from a position
        return (isinstance(v, Lin) and v.const and v.c == NPOS) or Interp.discrete(self, loc, v)

    # forms: linear expressions over locations, ((loc, ...), constant)
    def form_at(self, st, f):
        """value of a form; None when it speaks of a position that is 'not found' here"""
        t = Lin(f[1])
        for l in f[0]:
            v = self.numval(st, l)
            if v is None or (v.const and v.c == NPOS):
                return None
            t = t + v
        return t

    def forms(self, st, num, x, two=True):
        """ways to write the value x as a changing location, or two, plus a constant"""
        out = []
        vals = [(l, self.numval(st, l)) for l in num]
        vals = [(l, v) for l, v in vals if v is not None]
        for i, (l, v) in enumerate(vals):
            d = x - v
            if d.const and abs(d.c) <= 4:
                out.append(((l,), d.c))
            if two:
                for m, w in vals[:i]:
                    d = x - v - w
                    if d.const and abs(d.c) <= 4:
                        out.append(((m, l), d.c))
        return out

    def fact_forms(self, st, num):
        """what the entry state says about characters, as candidates over changing locations"""
        out = []
        for f in st.facts:
            if isinstance(f, tuple) and f[0] == "seg" and len(f) == 5:
                A = self.forms(st, num, f[2])
                B = self.forms(st, num, f[3])
                for a in A[:4] + [f[2]]:
                    for b in B[:4] + [f[3]]:
                        if isinstance(a, Lin) and isinstance(b, Lin):
                            continue
                        out.append(("tseg", f[1], a, b, f[4]))
        for k, d in st.dom.items():
            if k[0] == "B" and isinstance(k[1], tuple) and k[1][0] == "ch" and d != ALL:
                for a in self.forms(st, num, k[1][2])[:4]:
                    out.append(("tch", k[1][1], a, d))
                    n = ("n", k[1][1])
                    out.append(("tle", a, sym(n) - 1))
        for l in num:
            if l[-1] == ("lo",):
                for w in num:
                    if w != l and w[-1] not in (("lo",), ("hi",)):
                        v, x, h = self.numval(st, l), self.numval(st, w), st.mem.get(l[:-1] + (("hi",),))
                        if isinstance(h, Lin) and v is not None and x is not None and \
                                self.entails(st, v + x - h + 1):
                            out.append(("tle", ((l, w), 0), h - 1) if l[:-1] + (("hi",),) not in num else
                                       ("tlv", ((l, w), 1), l[:-1] + (("hi",),)))
        return list(dict.fromkeys(out))[:120]

    def probe(self, st, num, heads):
        out = self.fact_forms(st, num)
        seen = {}
        for h, backs in heads:
            for b in backs:
                c = tuple((w, b.mem[w]) for w in sorted(self.cur_W, key=repr)
                          if w in b.mem and self.discrete(w, b.mem[w]) and b.mem[w] != st.mem.get(w))
                if not c:
                    continue
                fs = set(self.fact_forms(b, [w for w in num if b.mem.get(w) is not None]))
                seen[c] = fs if c not in seen else seen[c] & fs
        for c, fs in seen.items():
            out += [("cond", c, f) for f in sorted(fs, key=repr)]
        for w in num:
            init = self.numval(st, w)
            if init is None:
                continue
            fw, bw = {}, {}
            for h, backs in heads:
                hv = self.numval(h, w)
                for b in backs:
                    bv = self.numval(b, w)
                    if hv is None or bv is None:
                        continue
                    d = bv - hv
                    if not d.const or not -4 <= d.c <= 4:
                        continue
                    for k, S in b.dom.items():
                        if not (k[0] == "B" and isinstance(k[1], tuple) and k[1][0] == "ch"):
                            continue
                        o = k[1][2] - hv
                        if not o.const:
                            continue
                        r = k[1][1]
                        if 0 <= o.c < d.c:
                            fw[r] = fw.get(r, frozenset()) | S
                        if d.c <= o.c < 0:
                            bw[r] = bw.get(r, frozenset()) | S
            for r, S in fw.items():
                if S != ALL:
                    out.append(("seg", w, 1, r, init, S))
            for r, S in bw.items():
                if S != ALL:
                    out.append(("seg", w, -1, r, init, S))
        return out + self.probe_pairs(st, num, heads)

    def probe_pairs(self, st, num, heads):
        """relations between characters read in lock-step from two texts"""
        got = {}
        for h, backs in heads:
            for b in backs:
                for k, R in b.dom.items():
                    if k[0] != "P" or k[1][0] != "ch" or k[2][0] != "ch":
                        continue
                    for w1 in num:
                        o1 = self.offset_of(k[1][2], w1, st, h, b)
                        if o1 is None:
                            continue
                        for w2 in num:
                            o2 = self.offset_of(k[2][2], w2, st, h, b)
                            if o2 is None:
                                continue
                            D = self.numval(st, w2) + o2 - self.numval(st, w1) - o1
                            key = (w1, o1, k[1][1], k[2][1], D)
                            old = got.get(key)
                            got[key] = R if old is None else tuple(x | y for x, y in zip(old, R))
        return [("pseg", w, r1, self.numval(st, w) + o, o, r2, D, R)
                for (w, o, r1, r2, D), R in got.items()]

    def offset_of(self, pos, w, st, h, b):
        """pos minus the head value of counter w, when w advances by one and pos is the
        position it passes over"""
        hv, bv = self.numval(h, w), self.numval(b, w)
        if hv is None or bv is None or self.numval(st, w) is None or bv - hv != Lin(1):
            return None
        o = pos - hv
        if any(s in hv.syms() for s in o.syms()):
            return None
        return o

    def t_eval(self, st, c):
        """operands of a form candidate; None when it does not apply to this state"""
        ev = lambda f: f if isinstance(f, Lin) else self.form_at(st, f)
        if c[0] == "tseg":
            a, b = ev(c[2]), ev(c[3])
            return None if a is None or b is None else (a, b)
        a = ev(c[2] if c[0] == "tch" else c[1])
        if a is None:
            return None
        if c[0] == "tlv":
            h = st.mem.get(c[2])
            return None if not isinstance(h, Lin) else (a, h)
        return (a,)

    def suppose(self, st, c):
        if c[0] == "cond":
            return self.suppose(st, c[2]) if all(st.mem.get(w) == v for w, v in c[1]) else st
        if c[0] in ("tseg", "tch", "tle", "tlv"):
            x = self.t_eval(st, c)
            if x is None:
                return st
            if c[0] == "tseg":
                return self.add_seg(st.copy(), c[1], x[0], x[1], c[4])
            if c[0] == "tch":
                s = st.copy()
                y = self.chsym(c[1], x[0], s)
                d = s.dom.get(("B", y), ALL) & c[3]
                if not d:
                    return None
                s.dom[("B", y)] = d
                return s
            return self.assume_le(st, x[0] - (c[2] if c[0] == "tle" else x[1]))
        if c[0] == "pseg":
            _, w, r1, init, o, r2, D, R = c
            v = self.numval(st, w)
            if v is None:
                return st
            st = st.copy()
            st.facts[("pseg", r1, init, v + o, r2, D, R)] = True
            return st
        if c[0] != "seg":
            return Interp.suppose(self, st, c)
        _, w, d, r, init, S = c
        v = self.numval(st, w)
        if v is None:
            return st
        st = st.copy()
        return self.add_seg(st, r, *((init, v) if d > 0 else (v, init)), S)

    def holds(self, st, c):
        if c[0] == "cond":
            return self.holds(st, c[2]) if all(st.mem.get(w) == v for w, v in c[1]) else True
        if c[0] in ("tseg", "tch", "tle", "tlv"):
            x = self.t_eval(st, c)
            if x is None:
                return True
            if c[0] == "tseg":
                return self.entails_seg(st, c[1], x[0], x[1], c[4])
            if c[0] == "tch":
                return self.dom_at(c[1], x[0], st.copy()) <= c[3]
            return self.entails(st, x[0] - (c[2] if c[0] == "tle" else x[1]))
        if c[0] == "pseg":
            _, w, r1, init, o, r2, D, R = c
            v = self.numval(st, w)
            return v is not None and self.entails_pairs(st, r1, init, v + o, r2, D, R)
        if c[0] != "seg":
            return Interp.holds(self, st, c)
        _, w, d, r, init, S = c
        v = self.numval(st, w)
        if v is None:
            return False
        return self.entails_seg(st, r, *((init, v) if d > 0 else (v, init)), S)

    def inst(self, st, c):
        if isinstance(c[0], str):
            return None
        return Interp.inst(self, st, c)

    def on_loop(self, n, st, heads, exits):
        """a round that changes nothing will be repeated for ever"""
        if n.get("k") == "CXXForRangeStmt":
            return
        self.obliged = getattr(self, "obliged", 0) + 1
        for h, backs in heads:
            for b in backs:
                if not self.diff(h, b) and not self.diff(b, h) and h.x == b.x:
                    self.complain(n, "a loop round may change nothing, so the loop never ends")
                    return

    # ---------------------------------------------------------------- comparisons
    def cases_eq(self, st, v, s, conv=None):
        """(states where view v spells s, states where it does not); conv: char -> set of bytes"""
        conv = conv or (lambda c: frozenset([ord(c) & 255]))
        n = len(s)
        t = self.assume(st, Bo("eq", v.n - n))
        no = []
        for lit in (Bo("le", v.n - (n - 1)), Bo("le", Lin(n + 1) - v.n)):
            x = self.assume(st, lit)
            if x:
                no.append(x)
        cur = [t] if t else []
        for k, ch in enumerate(s):
            nx = []
            for x in cur:
                y = x.copy()
                a, b = self.split_char(y, v.root, v.lo + k, conv(ch))
                nx += a
                no += b
            cur = nx
        return cur, no

    def prefix_cases(self, st, v, s, suffix=False):
        n = len(s)
        t = self.assume(st, Bo("le", Lin(n) - v.n))
        f = self.assume(st, Bo("le", v.n - (n - 1)))
        no = [f] if f else []
        cur = [t] if t else []
        for k, ch in enumerate(s):
            nx = []
            for x in cur:
                y = x.copy()
                i = v.lo + k if not suffix else v.hi - (n - k)
                a, b = self.split_char(y, v.root, i, frozenset([ord(ch) & 255]))
                nx += a
                no += b
            cur = nx
        return cur, no

    def text_eq(self, a, b, st):
        """list of (state, Bo) for equality of two text values"""
        if isinstance(a, Str) and isinstance(b, Str):
            return [(st, TRUE if a.s == b.s else FALSE)]
        if isinstance(a, Str):
            a, b = b, a
        if isinstance(a, V) and isinstance(b, Str) and len(b.s) <= 40:
            t, f = self.cases_eq(st, a, b.s)
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        if a == b:
            return [(st, TRUE)]
        x, y = sorted([a, b], key=repr)
        return self.decide(st, Bo("at", ("texteq", x, y)))

    def decide(self, st, b):
        t, f = self.branch(st, b)
        return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]

    # ---------------------------------------------------------------- callables on a character
    def pred_set(self, f, st, e):
        """bytes for which the unary char predicate f answers true"""
        S = ("pc", self.fresh("pc"))
        s0 = st.copy()
        loc = self.tmp("char")
        s0.mem[loc] = U(S, SCH)
        T, F = set(), set()
        for s, v in self.call_value(f, [Ref(loc)], s0, e):
            if isinstance(v, Ref):
                v = self.load(v.loc, "bool", s)
            t, n = self.branch(s, self.to_bool(v, s))
            for x in t:
                T |= x.dom.get(("B", S), ALL)
            for x in n:
                F |= x.dom.get(("B", S), ALL)
        if T & F or (T | F) != ALL:
            raise AnalysisError("character predicate is not a function of the character")
        return frozenset(T)

    def char_table(self, f, st, e):
        """256-entry table of the unary char function f"""
        S = ("pc", self.fresh("pc"))
        s0 = st.copy()
        loc = self.tmp("char")
        s0.mem[loc] = U(S, SCH)
        tab = [None] * 256
        for s, v in self.call_value(f, [Ref(loc)], s0, e):
            if isinstance(v, Ref):
                v = self.load(v.loc, "char", s)
            d = s.dom.get(("B", S), ALL)
            for b in d:
                x = v.m[b] if isinstance(v, U) and v.s == S else v.c if isinstance(v, Lin) and v.const else None
                if x is None or (tab[b] is not None and tab[b] != x):
                    raise AnalysisError("character function is not a function of the character")
                tab[b] = x
        if None in tab:
            raise AnalysisError("character function is partial")
        return tuple(tab)

    def pair_rel(self, f, st, e):
        """value of the binary char function f on all byte pairs: dict a -> list over b"""
        out = []
        for a in range(256):
            S = ("pc", self.fresh("pc"))
            s0 = st.copy()
            la, lb = self.tmp("char"), self.tmp("char")
            s0.mem[la] = Lin(SCH[a])
            s0.mem[lb] = U(S, SCH)
            row = [None] * 256
            for s, v in self.call_value(f, [Ref(la), Ref(lb)], s0, e):
                if isinstance(v, Ref):
                    v = self.load(v.loc, "int", s)
                pend = [(s, v)]
                if isinstance(v, Bo) and v.k != "c":
                    t, n = self.branch(s, v)
                    pend = [(x, Lin(1)) for x in t] + [(x, Lin(0)) for x in n]
                for x, w in pend:
                    if isinstance(w, Bo):
                        w = Lin(1 if w.p else 0)
                    for b in x.dom.get(("B", S), ALL):
                        z = w.c if isinstance(w, Lin) and w.const else \
                            w.m[b] if isinstance(w, U) and w.s == S else None
                        if z is None:
                            raise AnalysisError("binary character function is not analysable (%r)" % (w,))
                        if row[b] is not None and row[b] != z:
                            raise AnalysisError("binary character function is ambiguous")
                        row[b] = z
            if None in row:
                raise AnalysisError("binary character function is partial")
            out.append(row)
        return out

    # ---------------------------------------------------------------- library models
    def pos(self, a, st):
        return self.rv(a, "unsigned long", st) if isinstance(a, Ref) else a

    def rng(self, a, b, st, e):
        """(root, lo, hi) of an iterator pair into one text; literal -> Str"""
        a = self.load(a.loc, "char*", st) if isinstance(a, Ref) else a
        b = self.load(b.loc, "char*", st) if isinstance(b, Ref) else b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc and a.loc == b.loc:
            if a.loc[0][0] == "txt" and len(a.loc) == 1:
                return V(a.loc[0][1], a.off or Lin(0), b.off or Lin(0))
            if a.loc[0][0] in ("chars", "strlit"):
                s = a.loc[0][1]
                s = s.s if isinstance(s, Str) else s
                lo, hi = a.off or Lin(0), b.off or Lin(0)
                if lo.const and hi.const:
                    return Str(s[lo.c:hi.c])
        return None

    def find_model(self, st, v, S, start=None, back=False):
        """first (last) position in the view whose character is in S"""
        lo, hi = v.lo, v.hi
        out = []
        base, tab = root_base(v.root)
        if tab is not SCH:
            S = frozenset(b for b in range(256) if (tab[b] & 255) in S)
        if start is not None:
            lo = lo + start
            ok = self.assume_le(st, lo - hi)
            past = self.assume_le(st, hi - lo + 1)
            if past:
                out.append((past, Lin(NPOS)))
            if not ok:
                return out
            st = ok
        # an answer already known on this path is used again
        if self.entails_seg(st, base, lo, hi, inv(S)):
            out.append((st, Lin(NPOS)))
            return out
        p, hits = self.known_hit(st, base, lo, hi, S, back)
        if p is not None:
            out.append((st, p - v.lo))
            return out
        s = st.copy()
        if not hits:
            out.append((self.add_seg(s, base, lo, hi, inv(S)), Lin(NPOS)))
        s = self.assume_le(st.copy(), lo - hi + 1)
        if s is None:
            return out
        if len(s.cons) != len(st.cons):
            p, hits = self.known_hit(s, base, lo, hi, S, back)
            if p is not None:
                out.append((s, p - v.lo))
                return out
        s = s.copy()
        p = sym(self.fresh("at", "long"))
        s.cons = s.cons + (lo - p, p - hi + 1)
        for q in hits:
            s.cons = s.cons + ((q - p) if back else (p - q),)
        if back:
            self.add_seg(s, base, p + 1, hi, inv(S))
        else:
            self.add_seg(s, base, lo, p, inv(S))
        d = self.dom_at(base, p, s)
        if not d & S:
            return out
        s.dom[("B", self.chsym(base, p, s))] = d & S
        out.append((s, p - v.lo))
        return out

    def known_hit(self, st, base, lo, hi, S, back):
        """(the position found, if it is known; positions known to be in S)"""
        hits = []
        for k in list(st.dom):
            if k[0] == "B" and isinstance(k[1], tuple) and k[1][0] == "ch" and k[1][1] == base \
                    and st.dom[k] <= S:
                p = k[1][2]
                if self.entails(st, lo - p) and self.entails(st, p - hi + 1):
                    if (self.entails_seg(st, base, p + 1, hi, inv(S)) if back else
                            self.entails_seg(st, base, lo, p, inv(S))):
                        return p, hits
                    hits.append(p)
        return None, hits

    def ext(self, st, x):
        return isinstance(x, (V, Str, Cat))

    def needle(self, a, st):
        """set of bytes for find*_of, or a single character"""
        a = self.pos(a, st) if not isinstance(a, Ref) else a
        v = self.txt(a, st)
        if isinstance(v, Str):
            return bset(v.s), len(v.s)
        if isinstance(v, Lin) and v.const:
            return frozenset([v.c & 255]), 1
        if isinstance(v, Ref):
            return self.needle(self.load(v.loc, "char", st), st)
        return None, 0

    def sv_model(self, name, fn, st, this, args, e, ctor):
        n = fn["n"]
        isstr = name.startswith("std::basic_string::") or name == "std::basic_string"
        if not isstr and not name.startswith("std::basic_string_view"):
            return None
        if ctor or fn.get("dk") == "CXXConstructor":
            return self.str_ctor(name, fn, st, this, args, e, isstr)
        if this is None:
            return None
        v = self.load(this, "std::basic_string_view<char>", st)
        if isinstance(v, Tok) and v.k[:1] == ("moved",):
            if n in ("operator=", "clear", "assign") or n.startswith("~"):
                v = Str("")
            else:
                self.complain(e, "uses a moved-from string")
                v = Str("")
        if n == "operator=":
            s = st.copy()
            x = self.txt(args[0], s)
            self.consume(args[0], e.get("args", [None])[-1], s)
            self.put(this, x, s)
            return [(s, Ref(this))]
        if n.startswith("~"):
            return [(st, VOID)]
        if n in ("operator basic_string_view", "operator __sv_type") or n.startswith("operator basic_string_view") or \
                n.startswith("operator std::basic_string_view"):
            return [(st, v)]
        if n == "clear":
            s = st.copy()
            self.put(this, Str(""), s)
            return [(s, VOID)]
        if n in ("push_back", "append", "operator+="):
            s = st.copy()
            x = args[0]
            if n == "push_back" or (len(args) == 1 and int_type((e.get("args") or [{}])[-1].get("t", ""))):
                x = ("ch", self.pos(x, s))
            elif len(args) == 1:
                x = self.txt(x, s)
            else:
                x = self.str_of(args, s, e)
            if x is None or not (isinstance(x, tuple) or self.ext(s, x)):
                raise AnalysisError("append of an unmodelled value")
            self.put(this, cat(v, x), s)
            return [(s, Ref(this) if n != "push_back" else VOID)]
        if n == "resize":
            s = st.copy()
            k = self.pos(args[0], s)
            if v == Str(""):
                self.put(this, Cat([("rep", k, args[1] if len(args) > 1 else Lin(0))]), s)
                return [(s, VOID)]
            raise AnalysisError("resize of a nonempty string")
        if n in ("reserve", "shrink_to_fit"):
            return [(st, VOID)]
        if n == "pop_back" and isinstance(v, (Str, Cat)):
            ps = list(v.parts) if isinstance(v, Cat) else [v]
            if ps and isinstance(ps[-1], Str) and ps[-1].s:
                ps[-1] = Str(ps[-1].s[:-1])
                s = st.copy()
                self.put(this, cat(*ps), s)
                return [(s, VOID)]
        if isinstance(v, Cat):
            if n in ("begin", "data", "end"):
                return [(st, Ptr((("strobj", this),), Lin(0) if n != "end" else self.length(v)))]
            if n in ("size", "length"):
                return [(st, self.length(v))]
            if n == "empty":
                return self.decide(st, Bo("eq", self.length(v)))
            raise AnalysisError("operation %s on a built string" % n)
        if not isinstance(v, (V, Str)):
            if isinstance(v, Tok):
                return None
            raise AnalysisError("operation %s on %r" % (n, v))
        return self.view_op(n, v, this, st, args, e)

    def length(self, v):
        if isinstance(v, Str):
            return Lin(len(v.s))
        if isinstance(v, V):
            return v.n
        t = Lin(0)
        for p in v.parts:
            if isinstance(p, (V, Str)):
                t = t + self.length(p)
            elif p[0] == "ch":
                t = t + 1
            elif p[0] == "rep":
                t = t + p[1]
            else:
                k = ("flen", p)
                self.symty[k] = "unsigned int"
                t = t + sym(k)
        return t

    def put(self, loc, v, st):
        self.clear(loc, st)
        self.store(loc, v, st)

    def consume(self, v, a, st):
        """a string moved from"""
        if a is not None and isinstance(v, Ref) and a.get("lv") == 2 and \
                not a.get("t", "").startswith("const ") and v.loc[0][0] != "t" and \
                sq(unq(a.get("t", "").rstrip("& "))) == "std::basic_string":
            self.put(v.loc, Tok("moved"), st)

    def str_of(self, args, st, e):
        """text value built from constructor-like arguments"""
        a = [self.txt(x, st) if isinstance(x, Ref) else x for x in args]
        if len(a) == 1:
            x = self.txt(a[0], st)
            return x if self.ext(st, x) else None
        r = self.rng(a[0], a[1], st, e) if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) else None
        if r is not None:
            return r
        if isinstance(a[0], Ptr) and isinstance(a[1], Lin) and a[0].loc:
            if a[0].loc[0][0] == "txt":
                lo = a[0].off or Lin(0)
                return V(a[0].loc[0][1], lo, lo + a[1])
            s = a[0].loc[0][1]
            s = s.s if isinstance(s, Str) else s
            o = a[0].off or Lin(0)
            if isinstance(s, str) and o.const and a[1].const:
                return Str(s[o.c:o.c + a[1].c])
        if isinstance(a[0], Lin) and len(a) == 2:
            return Cat([("rep", a[0], a[1])])
        return None

    def str_ctor(self, name, fn, st, this, args, e, isstr):
        s = st.copy()
        ps = [a for a, x in zip(args, e.get("args", [])) if not (
            x is not None and sq(unq(x.get("t", "").rstrip("& "))) == "std::allocator")]
        if not ps:
            v = Str("")
        elif len(ps) == 1 and isinstance(ps[0], Ref):
            v = self.load(ps[0].loc, "std::basic_string_view<char>", s)
            v = self.txt(v, s)
            if isinstance(v, Tok) and v.k[:1] == ("moved",):
                self.complain(e, "copies a moved-from string")
                v = Str("")
            self.consume(ps[0], e.get("args", [None])[0], s)
            if v.__class__ is Ref:
                v = None
        else:
            v = self.str_of(ps, s, e)
        if v is None or not (self.ext(s, v) or isinstance(v, Tok)):
            if ps and isinstance(ps[0], Ptr):
                v = Tok("sv", *ps)
            else:
                raise AnalysisError("construction of a string from %r" % (args,))
        if isstr and this is not None:
            self.put(this, v, s)
            return [(s, Ref(this))]
        return [(s, v)]

    def oob(self, e, what):
        self.complain(e, what)

    def view_op(self, n, v, this, st, args, e):
        ln = self.length(v)
        if n in ("size", "length"):
            return [(st, ln)]
        if n == "empty":
            return [(st, (TRUE if not v.s else FALSE) if isinstance(v, Str) else Bo("eq", ln))]
        if n in ("begin", "cbegin", "data", "c_str"):
            if isinstance(v, Str):
                return [(st, Ptr((("chars", v),), Lin(0)))]
            return [(st, Ptr((("txt", v.root),), v.lo))]
        if n in ("end", "cend"):
            if isinstance(v, Str):
                return [(st, Ptr((("chars", v),), ln))]
            return [(st, Ptr((("txt", v.root),), v.hi))]
        if n in ("rbegin", "rend", "crbegin", "crend"):
            raise AnalysisError("reverse iteration")
        if n in ("front", "back", "operator[]", "at"):
            if n == "front":
                i = Lin(0)
            elif n == "back":
                i = ln - 1
            else:
                i = self.pos(args[0], st)
            self.obliged = getattr(self, "obliged", 0) + 1
            if not (isinstance(i, Lin) and self.entails(st, -i) and self.entails(st, i - ln + 1)):
                self.oob(e, "%s() may be called past the end of the text" % n)
                if not isinstance(i, Lin):
                    raise AnalysisError("unanalysable index")
                if n == "at":
                    self.throw(st.copy(), Exc("std::out_of_range", e))
                s2 = self.assume_le(st, -i)
                s2 = s2 and self.assume_le(s2, i - ln + 1)
                if s2 is None:
                    return []
                st = s2
            if isinstance(v, Str):
                return [(st, Ref((("chars", v), ("i", i))))]
            return [(st, Ref((("txt", v.root), ("i", v.lo + i))))]
        if n == "substr":
            a = [self.pos(x, st) for x in args]
            p = a[0] if a else Lin(0)
            c = a[1] if len(a) > 1 else Lin(NPOS)
            return self.substr(v, ln, p, c, st, e)
        if n in ("remove_prefix", "remove_suffix"):
            k = self.pos(args[0], st)
            self.obliged = getattr(self, "obliged", 0) + 1
            if not (isinstance(k, Lin) and self.entails(st, -k) and self.entails(st, k - ln)):
                self.oob(e, "%s() may remove more characters than the view has" % n)
                if not isinstance(k, Lin):
                    raise AnalysisError("unanalysable length")
                st = self.assume_le(st, k - ln)
                st = st and self.assume_le(st, -k)
                if st is None:
                    return []
            s = st.copy()
            if isinstance(v, Str):
                if not k.const:
                    raise AnalysisError("symbolic cut of a literal")
                w = Str(v.s[k.c:] if n == "remove_prefix" else v.s[:len(v.s) - k.c])
            elif n == "remove_prefix":
                w = V(v.root, v.lo + k, v.hi)
            else:
                w = V(v.root, v.lo, v.hi - k)
            self.put(this, w, s)
            return [(s, VOID)]
        if n in ("starts_with", "ends_with"):
            x = self.txt(args[0], st)
            if isinstance(x, Ref):
                x = self.load(x.loc, "char", st)
            if isinstance(x, Lin) and x.const:
                x = Str(chr(x.c & 255))
            if isinstance(v, Str) and isinstance(x, Str):
                r = v.s.startswith(x.s) if n == "starts_with" else v.s.endswith(x.s)
                return [(st, TRUE if r else FALSE)]
            if isinstance(x, Str):
                t, f = self.prefix_cases(st, v, x.s, n == "ends_with")
                return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
            raise AnalysisError("%s with an unknown affix" % n)
        if n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of",
                 "find_last_not_of", "contains"):
            S, k = self.needle(args[0], st)
            if S is None and isinstance(v, Str) and "_of" not in n:
                x = args[0]
                if isinstance(x, Ref):
                    x = self.load(x.loc, "char", st)
                out = []
                for i, ch in enumerate(v.s):
                    if ch in v.s[:i] if n != "rfind" else ch in v.s[i + 1:]:
                        continue
                    t, f = self.branch(st, self.compare("==", x, Lin(ord(ch) if ord(ch) < 128 else ord(ch) - 256), st, e))
                    out += [(s, TRUE if n == "contains" else Lin(i)) for s in t]
                    if len(f) != 1:
                        st = None
                        if not f:
                            break
                        raise AnalysisError("search for an unknown character")
                    st = f[0]
                if st is not None:
                    out.append((st, FALSE if n == "contains" else Lin(NPOS)))
                return out
            if S is None:
                raise AnalysisError("%s with an unknown needle" % n)
            if n in ("find", "rfind", "contains") and k != 1:
                raise AnalysisError("substring search")
            if "not_of" in n:
                S = inv(S)
            start = self.pos(args[1], st) if len(args) > 1 else None
            back = n in ("rfind", "find_last_of", "find_last_not_of")
            if start is not None and (start == Lin(NPOS) if back else start == Lin(0)):
                start = None
            if back and start is not None:
                raise AnalysisError("backward search from a position")
            if isinstance(v, Str):
                if start is not None and not start.const:
                    raise AnalysisError("search in a literal from a symbolic position")
                idx = [i for i, c in enumerate(v.s) if ord(c) in S and i >= (start.c if start else 0)]
                r = Lin(NPOS) if not idx else Lin(idx[-1] if back else idx[0])
                if n == "contains":
                    r = TRUE if idx else FALSE
                return [(st, r)]
            r = self.find_model(st, v, S, start, back)
            if n == "contains":
                return [(s, FALSE if x == Lin(NPOS) else TRUE) for s, x in r]
            return r
        if n == "compare":
            raise AnalysisError("compare()")
        raise AnalysisError("view operation " + n)

    def substr(self, v, ln, p, c, st, e):
        if not isinstance(p, Lin) or not isinstance(c, Lin):
            raise AnalysisError("unanalysable substr")
        self.obliged = getattr(self, "obliged", 0) + 1
        out = []
        if not (self.entails(st, -p) and self.entails(st, p - ln)):
            self.throw(st.copy(), Exc("std::out_of_range", e, "substr past the end"))
            self.oob(e, "substr() may start past the end of the text")
            st = self.assume_le(st, p - ln)
            if st is None:
                return []
        if isinstance(v, Str):
            if p.const and c.const:
                return [(st, Str(v.s[p.c:min(len(v.s), p.c + c.c)]))]
            if len(v.s) > 32:
                raise AnalysisError("symbolic substr of a literal")
            for i in range(len(v.s) + 1):
                s = self.assume(st, Bo("eq", p - i))
                if s is None:
                    continue
                for k in range(len(v.s) - i + 1):
                    last = k == len(v.s) - i
                    s2 = self.assume_le(s, Lin(k) - c) if last else self.assume(s, Bo("eq", c - k))
                    if s2 is not None:
                        out.append((s2, Str(v.s[i:i + k])))
            return out
        if c.const and c.c >= BIG:
            return [(st, V(v.root, v.lo + p, v.hi))]
        a = self.assume_le(st, p + c - ln)
        if a:
            out.append((a, V(v.root, v.lo + p, v.lo + p + c)))
        b = self.assume_le(st, ln - p - c + 1)
        if b:
            out.append((b, V(v.root, v.lo + p, v.hi)))
        return out

    # ---- free functions
    def model_by_pattern(self, name, fn, st, this, args, e, ctor):
        n = fn.get("n")
        if n in ("operator==", "operator!=", "operator<=>") and len(args) + (this is not None) == 2 \
                and (name.startswith("std::operator") or name.startswith("std::basic_string")):
            al = ([Ref(this)] if this is not None else []) + list(args)
            a, b = self.txt(al[0], st), self.txt(al[1], st)
            if self.ext(st, a) and self.ext(st, b):
                if n == "operator<=>":
                    return None
                r = self.text_eq(a, b, st)
                if n == "operator!=":
                    r = [(s, bo_not(x)) for s, x in r]
                return r
        if name == "std::operator+" and len(args) == 2:
            xs = []
            for a, x in zip(args, e.get("args", [])):
                v = self.txt(a, st)
                if isinstance(v, (Lin, U)):
                    v = ("ch", v)
                xs.append(v)
            if all(isinstance(x, tuple) or self.ext(st, x) for x in xs):
                return [(st, cat(*xs))]
        if this is None and name.startswith("std::") and len(args) >= 2 and n in self.ALGOS:
            r = getattr(self, "a_" + n)(st, args, e)
            if r is not None:
                return r
        if name in ("std::empty", "std::size", "std::ssize", "std::begin", "std::end", "std::data",
                    "std::cbegin", "std::cend") and len(args) == 1:
            v = self.txt(args[0], st)
            if isinstance(v, (V, Str)):
                return self.view_op(n.replace("ssize", "size"), v, None, st, [], e)
        return Interp.model_by_pattern(self, name, fn, st, this, args, e, ctor)

    ALGOS = ("all_of", "any_of", "none_of", "find_if", "find_if_not", "find", "equal",
             "transform", "lexicographical_compare_three_way", "from_chars", "count", "copy",
             "copy_n", "distance", "next", "prev", "advance", "for_each")

    def a_distance(self, st, args, e):
        r = self.rng(args[0], args[1], st, e)
        return [(st, self.length(r))] if r is not None else None

    def a_next(self, st, args, e):
        a = self.rv(args[0], "char*", st)
        return [(st, Ptr(a.loc, (a.off or Lin(0)) + self.pos(args[1], st)))] if isinstance(a, Ptr) else None

    def a_prev(self, st, args, e):
        a = self.rv(args[0], "char*", st)
        return [(st, Ptr(a.loc, (a.off or Lin(0)) - self.pos(args[1], st)))] if isinstance(a, Ptr) else None

    def a_advance(self, st, args, e):
        return None

    def a_for_each(self, st, args, e):
        return None

    def a_count(self, st, args, e):
        return None

    def quant(self, st, args, e, neg):
        """(states where all chars are in S), (states with a char outside S)"""
        r = self.rng(args[0], args[1], st, e)
        if r is None:
            return None
        S = self.pred_set(args[2], st, e)
        if neg:
            S = inv(S)
        if isinstance(r, Str):
            ok = bset(r.s) <= S
            return ([st], []) if ok else ([], [st])
        base, tab = root_base(r.root)
        if tab is not SCH:
            S = frozenset(b for b in range(256) if (tab[b] & 255) in S)
        if self.entails_seg(st, r.root, r.lo, r.hi, S):
            return [st], []
        f = self.find_model(st, V(base, r.lo, r.hi), inv(S))
        return [s for s, x in f if x == Lin(NPOS)], [s for s, x in f if x != Lin(NPOS)]

    def a_all_of(self, st, args, e):
        q = self.quant(st, args, e, False)
        return q and [(s, TRUE) for s in q[0]] + [(s, FALSE) for s in q[1]]

    def a_none_of(self, st, args, e):
        q = self.quant(st, args, e, True)
        return q and [(s, TRUE) for s in q[0]] + [(s, FALSE) for s in q[1]]

    def a_any_of(self, st, args, e):
        q = self.quant(st, args, e, True)
        return q and [(s, FALSE) for s in q[0]] + [(s, TRUE) for s in q[1]]

    def finder(self, st, args, e, S):
        r = self.rng(args[0], args[1], st, e)
        if not isinstance(r, V):
            return None
        base, tab = root_base(r.root)
        if tab is not SCH:
            S = frozenset(b for b in range(256) if (tab[b] & 255) in S)
        out = []
        for s, x in self.find_model(st, V(base, r.lo, r.hi), S):
            out.append((s, Ptr((("txt", r.root),), r.hi if x == Lin(NPOS) else r.lo + x)))
        return out

    def a_find_if(self, st, args, e):
        return self.finder(st, args, e, self.pred_set(args[2], st, e))

    def a_find_if_not(self, st, args, e):
        return self.finder(st, args, e, inv(self.pred_set(args[2], st, e)))

    def a_find(self, st, args, e):
        c = self.pos(args[2], st)
        if isinstance(c, Lin) and c.const:
            return self.finder(st, args, e, frozenset([c.c & 255]))
        return None

    def a_equal(self, st, args, e):
        r1 = self.rng(args[0], args[1], st, e)
        rest = args[2:]
        if r1 is None:
            return None
        rest = [self.load(x.loc, "char*", st) if isinstance(x, Ref) and isinstance(
            st.mem.get(x.loc), Ptr) else x for x in rest]
        if len(rest) >= 2 and isinstance(rest[1], Ptr):
            r2 = self.rng(rest[0], rest[1], st, e)
            f = rest[2] if len(rest) > 2 else None
        else:
            p = rest[0]
            if isinstance(p, Ptr) and p.loc and p.loc[0][0] == "txt":
                lo = p.off or Lin(0)
                r2 = V(p.loc[0][1], lo, lo + self.length(r1))
                base, _ = root_base(r2.root)
                self.obliged = getattr(self, "obliged", 0) + 1
                if not self.entails(st, r2.hi - sym(("n", base))):
                    self.oob(e, "std::equal may read past the end of the second text")
            else:
                return None
            f = rest[1] if len(rest) > 1 else None
        if r2 is None:
            return None
        if f is None:
            return self.text_eq(r1, r2, st)
        return self.equal_rel(r1, r2, self.rel_of(f, st, e), st)

    def rel_of(self, f, st, e):
        """binary predicate as a tuple of 256 frozensets; memoised per callable"""
        k = None
        if isinstance(f, Ref):
            v = st.mem.get(f.loc + (("?fn",),))
            k = v.id if isinstance(v, Fn) else None
        elif isinstance(f, Fn):
            k = f.id
        memo = self.__dict__.setdefault("_rel", {})
        if k is None or k not in memo:
            m = self.pair_rel(f, st, e)
            r = tuple(frozenset(b for b in range(256) if m[a][b]) for a in range(256))
            if k is None:
                return r
            memo[k] = r
        return memo[k]

    def equal_rel(self, a, b, rel, st):
        if isinstance(a, Str) and isinstance(b, Str):
            ok = len(a.s) == len(b.s) and all(ord(y) in rel[ord(x)] for x, y in zip(a.s, b.s))
            return [(st, TRUE if ok else FALSE)]
        if isinstance(b, Str):
            t, f = self.cases_eq(st, a, b.s, lambda c: frozenset(
                x for x in range(256) if ord(c) & 255 in rel[x]))
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        if isinstance(a, Str):
            t, f = self.cases_eq(st, b, a.s, lambda c: rel[ord(c) & 255])
            return [(s, TRUE) for s in t] + [(s, FALSE) for s in f]
        return self.decide(st, Bo("at", ("equal", a, b, rel)))

    def a_lexicographical_compare_three_way(self, st, args, e):
        r1 = self.rng(args[0], args[1], st, e)
        r2 = self.rng(args[2], args[3], st, e)
        if r1 is None or r2 is None:
            return None
        m = self.pair_rel(args[4], st, e) if len(args) > 4 else [
            [(SCH[a] & 255 > SCH[b] & 255) - (SCH[a] & 255 < SCH[b] & 255) for b in range(256)] for a in range(256)]
        k = ("lex3", r1, r2, tuple(tuple(r) for r in m))
        self.symty[k] = "int"
        s = st.copy()
        s.dom[k] = frozenset([-1, 0, 1])
        return [(s, sym(k))]

    def a_transform(self, st, args, e):
        r = self.rng(args[0], args[1], st, e)
        if len(args) != 4 or r is None:
            return None
        d = self.rv(args[2], "char*", st)
        if not (isinstance(d, Ptr) and d.loc and d.loc[0][0] == "strobj" and (d.off or Lin(0)) == Lin(0)):
            return None
        loc = d.loc[0][1]
        v = st.mem.get(loc)
        if not (isinstance(v, Cat) and len(v.parts) == 1 and v.parts[0][0] == "rep"):
            return None
        n = v.parts[0][1]
        self.obliged = getattr(self, "obliged", 0) + 1
        if not self.entails(st, self.length(r) - n):
            self.oob(e, "std::transform may write past the end of the string")
        tab = self.char_table(args[3], st, e)
        s = st.copy()
        if isinstance(r, Str):
            w = Str("".join(chr(tab[ord(c) & 255] & 255) for c in r.s))
        else:
            base, t0 = root_base(r.root)
            w = V(("map", base, tuple(tab[t0[b] & 255] for b in range(256))), r.lo, r.hi)
        if not self.same(s, self.length(r), n):
            w = cat(w, ("rep", n - self.length(r), Lin(0)))
        self.put(loc, w, s)
        return [(s, Ptr((("strobj", loc),), self.length(r)))]

    def a_copy(self, st, args, e):
        return None

    def a_copy_n(self, st, args, e):
        return None

    def a_from_chars(self, st, args, e):
        """[first, last) -> {ptr, ec}; the value is named by the characters it was read from"""
        r = self.rng(args[0], args[1], st, e)
        if r is None or not isinstance(args[2], Ref):
            return None
        if isinstance(r, Str):
            raise AnalysisError("from_chars on a literal")
        vty = unq((e["args"][2] or {}).get("t", "").rstrip("& "))
        base = None
        if len(args) > 3:
            base = self.pos(args[3], st)
            if base == (Lin(10) if int_type(vty) else Lin(3)):
                base = None         # decimal, or the general format
        extra = (base,) if base is not None else ()
        it = int_type(vty)
        out = []
        rty = unq(e.get("t", ""))

        def result(s, ptr, ec):
            t = self.tmp(rty)
            s.mem[t + (("f", "ptr"),)] = ptr
            s.mem[t + (("f", "ec"),)] = ec
            out.append((s, Ref(t)))
        P = lambda x: Ptr((("txt", r.root),), x)
        # no number at the front
        s = st.copy()
        s.facts[("nonum", r.root, r.lo, r.hi, vty) + extra] = True
        result(s, P(r.lo), Lin(22))
        # a number, representable or not
        for okay in (True, False):
            s = self.assume_le(st.copy(), r.lo - r.hi + 1)
            if s is None:
                continue
            s = s.copy()
            p = sym(self.fresh("num", "long"))
            s.cons = s.cons + (r.lo + 1 - p, p - r.hi)
            k = ("num", r.root, r.lo, p, vty) + extra
            s.facts[("parsed" if okay else "range",) + k[1:]] = True
            if okay:
                s = s.copy()
                if it:
                    self.symty[k] = vty
                    self.put_scalar(args[2].loc, sym(k), s)
                else:
                    self.put_scalar(args[2].loc, Tok(*k), s)
                if it and not it[1] and not extra:
                    self.add_seg(s, r.root, r.lo, p, DIGIT)
            result(s, P(p), Lin(0) if okay else Lin(34))
        return out

    def put_scalar(self, loc, v, st):
        self.clear(loc, st)
        st.mem[loc] = v

    # ---------------------------------------------------------------- range-for over characters
    def range_loop(self, n, rl, st):
        v = st.mem.get(rl)
        if isinstance(v, Tok) and v.k[:1] == ("view",):
            v = self.load(rl, "std::basic_string_view<char>", st)
            return self.char_loop(n, v, st)
        if isinstance(v, Str) and len(v.s) <= 64:
            return Interp.range_loop(self, n, rl, st)
        return self.other_range(n, rl, st)

    def other_range(self, n, rl, st):
        return Interp.range_loop(self, n, rl, st)

    def char_loop(self, n, v, st):
        fr = self.frames[-1]
        var = n["var"]
        vloc = (("v", fr.fid, var["id"]),)
        cnt = (("v", fr.fid, ("it", n.get("l"), var["id"])),)
        st = st.copy()
        st.mem[cnt] = v.lo
        self.lty[cnt] = "long"

        def cond(s):
            i = s.mem[cnt]
            ts, fs = self.branch(s, self.cmp_lin("<", i - v.hi))
            res = []
            for t in ts:
                t = t.copy()
                self.lty[vloc] = unq(var["t"])
                if is_ref(var["t"]):
                    t.mem[vloc] = Ref((("txt", v.root), ("i", i)))
                else:
                    t.mem[vloc] = self.char_at(v.root, i, t)
                t.mem[cnt] = i
                res.append(t)
            return res, fs
        INC = {"k": "?inc", "loc": cnt, "l": n.get("l")}
        return self.loop(n, [st], cond, n["body"], INC)

    def e_default(self, e, st):
        if e.get("k") == "?inc":
            s = st.copy()
            s.mem[e["loc"]] = s.mem[e["loc"]] + 1
            return [(s, VOID)]
        return Interp.e_default(self, e, st)

    # ---------------------------------------------------------------- safety hooks
    def hook_unknown(self, node, why):
        raise AnalysisError("unmodelled: " + why)

    def hook_ctype(self, name, v, st, e):
        """<cctype> functions are undefined for negative values other than EOF"""
        self.obliged = getattr(self, "obliged", 0) + 1
        neg = None
        if isinstance(v, U):
            d = st.dom.get(("B", v.s), ALL)
            neg = [b for b in d if v.m[b] < -1]
        elif isinstance(v, Lin) and v.const:
            neg = [v.c] if v.c < -1 else []
        elif isinstance(v, Lin) and self.entails(st, -v):
            neg = []
        else:
            neg = [0]
        if neg and (e.get("l"), name) not in self.__dict__.setdefault("_ct", set()):
            self._ct.add((e.get("l"), name))
            f = self.frames[-1].fn if self.frames else {}
            self.bad.append((f, e.get("l", 0), "%s() is called with a negative value for bytes "
                             "above 0x7f (undefined behaviour)" % name))

    def may_throw(self, fn, e):
        return False

    def external(self, fn, rec, this, args, st, e):
        n = sq(fn.get("qn", "?"))
        if n.startswith(self.ok_external):
            return Interp.external(self, fn, rec, this, args, st, e)
        if "::~" in n:
            return [(st, VOID)]
        raise AnalysisError("call of unmodelled function %s" % n)

    ok_external = ("std::make_error_code", "std::error_code", "std::exception")
