"""Abstract values: linear forms, byte-function (powerset) values, bit-provenance
vectors, pointers, references, strings and boolean literals."""


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    @property
    def const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, tuple(sorted(((s, k) for s, k in d.items() if k), key=_sk)))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, k * q) for s, q in self.t))

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        r = []
        for s, k in self.t:
            r.append(("%s" if k == 1 else "%d*" % k + "%s") % (_sn(s),))
        if self.c or not r:
            r.append(str(self.c))
        return " + ".join(r)


def _sn(s):
    return s if isinstance(s, str) else repr(s)


def _sk(p):
    return repr(p[0])


def sym(s):
    return Lin(0, ((s, 1),))


class U:
    """A function of one byte symbol, given extensionally (256 results)."""
    __slots__ = ("s", "m", "_h")

    def __init__(self, s, m):
        self.s = s
        self.m = tuple(m)
        self._h = hash((s, self.m))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, U) and self.s == o.s and self.m == o.m

    def map(self, f):
        return U(self.s, tuple(f(x) for x in self.m))

    def __repr__(self):
        return "fn(%s)" % (_sn(self.s),)


class Bits:
    """bit vector; each bit is 0, 1, (sym, truth table over the byte) or ('x', key)."""
    __slots__ = ("b", "_h")

    def __init__(self, b):
        self.b = tuple(b)
        self._h = hash(self.b)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Bits) and self.b == o.b

    def __repr__(self):
        def one(x):
            if x in (0, 1):
                return str(x)
            return "%s.%s" % (_sn(x[0]), format(hash(x[1]) & 0xfff, "x"))
        return "bits[" + ",".join(one(x) for x in reversed(self.b)) + "]"


FULL = (1 << 256) - 1


def u_bits(u, width, dom=None):
    out = []
    for j in range(width):
        tt = 0
        for i in range(256):
            if (u.m[i] >> j) & 1:
                tt |= 1 << i
        if dom is not None:
            dm = 0
            for i in dom:
                dm |= 1 << i
            if tt & dm == 0:
                out.append(0)
                continue
            if tt & dm == dm:
                out.append(1)
                continue
        if tt == 0:
            out.append(0)
        elif tt == FULL:
            out.append(1)
        else:
            out.append((u.s, tt))
    return Bits(out)


def const_bits(c, width):
    return Bits([(c >> j) & 1 for j in range(width)])


class App:
    """table[index bits]; index not a function of a single byte."""
    __slots__ = ("tab", "idx", "_h")

    def __init__(self, tab, idx):
        self.tab = tab
        self.idx = idx
        self._h = hash((tab, idx))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, App) and self.tab == o.tab and self.idx == o.idx

    def __repr__(self):
        return "%s[%r]" % (self.tab, self.idx)


class Bo:
    """boolean literal"""
    __slots__ = ("k", "p", "_h")

    def __init__(self, k, p):
        self.k = k
        self.p = p
        self._h = hash((k, p))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Bo) and self.k == o.k and self.p == o.p

    def __repr__(self):
        return "%s(%r)" % (self.k, self.p)


TRUE = Bo("c", True)
FALSE = Bo("c", False)


def bo_not(b):
    if b.k == "c":
        return FALSE if b.p else TRUE
    if b.k == "not":
        return b.p
    if b.k == "le":
        return Bo("le", (-b.p) + 1)
    if b.k == "in":
        s, S = b.p
        return Bo("in", (s, frozenset(range(256)) - S))
    return Bo("not", b)


class Ptr:
    __slots__ = ("loc", "off", "_h")

    def __init__(self, loc, off=None):
        self.loc = loc
        self.off = off
        self._h = hash((loc, off))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.loc == o.loc and self.off == o.off

    def target(self):
        if self.loc is None:
            return None
        if self.off is None:
            return self.loc
        return self.loc + (("i", self.off),)

    def __repr__(self):
        return "&%r%s" % (self.loc, "" if self.off is None else "+" + repr(self.off))


class Ref:
    """a glvalue / class prvalue living at a location"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __hash__(self):
        return hash(("R", self.loc))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.loc == o.loc

    def __repr__(self):
        return "@%r" % (self.loc,)


class Fn:
    __slots__ = ("id", "ref")

    def __init__(self, id, ref=None):
        self.id = id
        self.ref = ref

    def __hash__(self):
        return hash(("F", self.id))

    def __eq__(self, o):
        return isinstance(o, Fn) and self.id == o.id

    def __repr__(self):
        return "fn#%s" % self.id


class Str:
    """a known character sequence"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(("S", self.s))

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __repr__(self):
        return "str(%r)" % self.s


class Tok:
    """an opaque value with a provenance key (hash-consed)"""
    __slots__ = ("k", "_h")

    def __init__(self, *k):
        self.k = k
        self._h = hash(k)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Tok) and self.k == o.k

    def __repr__(self):
        return "<%s>" % ",".join(map(repr, self.k))


VOID = Tok("void")


# ---------------------------------------------------------------- integer types
_INT = {"bool": (1, False), "char": (8, True), "signed char": (8, True),
        "unsigned char": (8, False), "char8_t": (8, False), "short": (16, True),
        "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
        "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
        "unsigned long long": (64, False), "wchar_t": (32, True), "char16_t": (16, False),
        "char32_t": (32, False), "std::byte": (8, False), "__int128": (128, True),
        "unsigned __int128": (128, False)}


from functools import lru_cache


@lru_cache(None)
def unq(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.endswith("const") and t[:-5].endswith(("*", "&")):
            t = t[:-5].rstrip()
        else:
            return t.strip()


@lru_cache(None)
def int_type(t):
    """(bits, signed) or None"""
    return _INT.get(unq(t))


@lru_cache(None)
def int_range(t):
    it = int_type(t)
    if not it:
        return None
    b, s = it
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def wrap(v, t):
    b, s = int_type(t)
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


# ---------------------------------------------------------------- entailment
class Diff:
    """closure of difference constraints x - y <= c (and x <= c, -x <= c)"""
    __slots__ = ("ix", "d", "bad", "odd")

    def __init__(self, o=None):
        if o is None:
            self.ix, self.d, self.bad, self.odd = {None: 0}, [[0]], False, ()
        else:
            self.ix, self.d, self.bad, self.odd = dict(o.ix), [r[:] for r in o.d], o.bad, o.odd

    def node(self, s, rng):
        i = self.ix.get(s)
        if i is None:
            i = self.ix[s] = len(self.d)
            for r in self.d:
                r.append(None)
            self.d.append([None] * i + [0])
            if rng:
                self.edge(i, 0, rng[1])
                self.edge(0, i, -rng[0])
        return i

    def edge(self, i, j, w):
        """value(i) - value(j) <= w"""
        d = self.d
        if i == j:
            if w < 0:
                self.bad = True
            return
        o = d[i][j]
        if o is not None and o <= w:
            return
        b = d[j][i]
        if b is not None and b + w < 0:
            self.bad = True
            return
        # x - y <= (x - i) + w + (j - y)
        rj = d[j]
        tail = [(y, w + v) for y, v in enumerate(rj) if v is not None]
        for row in d:
            a = row[i]
            if a is None:
                continue
            for y, v in tail:
                v += a
                o = row[y]
                if o is None or v < o:
                    row[y] = v

    def add(self, l, ty):
        t = l.t
        if not t:
            if l.c > 0:
                self.bad = True
            return
        if len(t) == 1:
            (s, k), = t
            i = self.node(s, ty(s))
            if k > 0:
                self.edge(i, 0, (-l.c) // k)
            else:
                self.edge(0, i, (-l.c) // -k)
            return
        if len(t) == 2:
            (s, k), (u, m) = t
            if k == -m and abs(k) == 1:
                if k < 0:
                    s, u = u, s
                self.edge(self.node(s, ty(s)), self.node(u, ty(u)), -l.c)
                return
        for s, _ in t:
            self.node(s, ty(s))
        self.odd = self.odd + (l,)

    def proves(self, l):
        """True / False / None (not a question for differences); False only says: not from these"""
        if self.bad:
            return True
        t = l.t
        ix = self.ix
        if len(t) == 1:
            (s, k), = t
            i = ix.get(s)
            if i is None or abs(k) != 1:
                return None
            b = self.d[i][0] if k > 0 else self.d[0][i]
            return b is not None and b <= -l.c
        if len(t) == 2:
            (s, k), (u, m) = t
            if k == -m and abs(k) == 1:
                if k < 0:
                    s, u = u, s
                i, j = ix.get(s), ix.get(u)
                if i is None or j is None:
                    return None
                b = self.d[i][j]
                return b is not None and b <= -l.c
        return None


def fm_unsat(cons, limit=4000):
    """Rational Fourier-Motzkin with integer tightening: True if the conjunction of
    (lin <= 0) has no solution."""
    from math import gcd
    from functools import reduce

    def norm(l):
        if not l.t:
            return l
        g = reduce(gcd, [abs(k) for _, k in l.t])
        if g > 1:
            c = -((-l.c) // g)  # ceil(c/g)
            return Lin(c, tuple((s, k // g) for s, k in l.t))
        return l
    S = {}
    for l in cons:
        l = norm(l)
        if not l.t:
            if l.c > 0:
                return True
            continue
        if l.t not in S or S[l.t] < l.c:
            S[l.t] = l.c
    while True:
        cnt = {}
        for t in S:
            for s, k in t:
                a = cnt.setdefault(s, [0, 0])
                a[0 if k > 0 else 1] += 1
        if not cnt:
            return False
        best = min(cnt, key=lambda s: cnt[s][0] * cnt[s][1])
        pos, neg, rest = [], [], {}
        for t, c in S.items():
            k = dict(t).get(best, 0)
            if k > 0:
                pos.append((k, Lin(c, t)))
            elif k < 0:
                neg.append((-k, Lin(c, t)))
            else:
                rest[t] = c
        for kp, lp in pos:
            for kn, ln in neg:
                l = norm(lp.scale(kn) + ln.scale(kp))
                if not l.t:
                    if l.c > 0:
                        return True
                    continue
                if l.t not in rest or rest[l.t] < l.c:
                    rest[l.t] = l.c
        S = rest
        if len(S) > limit:
            return False
