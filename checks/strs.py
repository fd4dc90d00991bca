#!/usr/bin/env python3
"""String helpers: trimming, splitting, case-insensitive comparison (C05), conversion (C06)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import facts  # noqa: E402
import report  # noqa: E402
from spec import *  # noqa: E402,F403
from objs import Objs  # noqa: E402

LOWER = [c + 32 if 65 <= c <= 90 else c for c in range(256)]
EQ = tuple(sum(1 << b for b in range(256) if LOWER[a] == LOWER[b]) for a in range(256))
LT = tuple(sum(1 << b for b in range(256) if LOWER[a] < LOWER[b]) for a in range(256))
GT = tuple(sum(1 << b for b in range(256) if LOWER[a] > LOWER[b]) for a in range(256))
FULL = Text.FULL
NEQ = tuple(FULL ^ x for x in EQ)


def flush(rep, it, part):
    """report what the interpreter itself found (reads outside a text, ...)"""
    for f, line, msg in it.bad:
        rep.violation("%s:%s" % (f.get("sqn", part), msg.split(" (")[0]), f, line, "in %s: %s" % (f.get("sqn", part), msg))
    it.bad = []
    rep.obligation("in-bounds and precondition obligations in %s" % part, getattr(it, "obliged", 0))


def trims(rep, prog, names=("ltrim", "rtrim", "trim")):
    SPEC = {"trim": (True, True), "ltrim": (True, False), "rtrim": (False, True)}
    preds = {"is_space": SPACE, "drive::odd_char": frozenset(b for b in range(256) if b % 2)}
    for n in names:
        for f in fns(prog, n):
            if len(f["params"]) == 1:
                todo = [(None, SPACE)]
            elif len(f["params"]) == 2:
                todo = [(p, S) for p, S in preds.items()]
            else:
                continue
            for p, S in todo:
                it = Objs(prog, rep)
                it.summaries = ()
                st = St()
                a = it.text("text", st)
                args = [a]
                if p:
                    g = fns(prog, p)
                    if not g:
                        continue
                    args.append(Fn(g[0]["id"], {"qn": g[0]["qn"], "n": g[0]["n"]}))
                res, thr = it.run(f, args, st)
                rep.analysed(f)
                left, right = SPEC[n]
                for s, v in res:
                    v = load_text(it, s, v)
                    for s2, w in one_trim(it, s, a, S, left, right):
                        rep.obligation("%s outcomes compared" % n)
                        if not same_view(it, s2, v, w):
                            rep.violation("%s:result" % n, f, None, "%s does not return exactly the text without %s blanks"
                                          % (n, " and ".join(x for x, y in (("leading", left), ("trailing", right)) if y)))
                if thr:
                    rep.violation("%s:throw" % n, f, None, "%s may throw" % n)
                flush(rep, it, n)


def one_trim(it, st, a, S, left, right):
    out = []
    for s, w in trim(it, st, a, S):
        if it.entails(s, w.n):
            # everything was blank
            out.append((s, V(a.root, a.hi, a.hi)))
        else:
            out.append((s, V(a.root, w.lo if left else a.lo, w.hi if right else a.hi)))
    return out


class Split(Objs):
    summaries = ()

    def sink(self, st, vec, k, el, e):
        pl = vec + (("pos",),)
        v = load_text(self, st, Ref(el))
        pos = st.mem[pl]
        out = []
        t, f = self.branch(st, self.cmp_lin("<=", pos - self.src.hi))
        for s in f:
            self.fail(e, "extra", "adds a piece after the last one")
        for s in t:
            for s2, p, rest in piece(self, s, V(self.src.root, pos, self.src.hi), self.D):
                for s3, w in trim(self, s2, p):
                    self.cnt = getattr(self, "cnt", 0) + 1
                    if not same_view(self, s3, v, w):
                        self.fail(e, "piece", "a piece is not the trimmed text between two delimiters")
                    s3 = s3.copy()
                    s3.mem[pl] = rest.lo if rest is not None else self.src.hi + 1
                    out.append(s3)
        return out

    def fail(self, e, key, msg):
        if not getattr(self, "quiet", 0):
            self.rep.violation("split_of:" + key, self.frames[1].fn, e.get("l"), msg)


def splits(rep, prog):
    for f in fns(prog, "split_of", 2):
        for d in (",", ";=", ""):
            it = Split(prog, rep)
            st = St()
            it.src = a = it.text("text", st)
            it.start = a.lo
            it.D = bset(d)
            res, thr = it.run(f, [a, Str(d)], st)
            rep.analysed(f)
            for s, v in res:
                rep.obligation("split_of exits checked for completeness")
                if not isinstance(v, Ref) or v.loc + (("pos",),) not in s.mem:
                    raise facts.AnalysisError("split_of returns something that is not a list of its own")
                if not it.same(s, s.mem[v.loc + (("pos",),)], a.hi + 1):
                    rep.violation("split_of:incomplete", f, None, "split_of can return without the last pieces of the text")
            rep.obligation("pieces compared", getattr(it, "cnt", 0))
            if thr:
                rep.violation("split_of:throw", f, None, "split_of may throw for some text")
            flush(rep, it, "split_of")


def eq_facts(it, st, a, b):
    """what the state says about element-wise equality under EQ: True / False / None"""
    d = a.n - b.n
    for k, val in st.facts.items():
        if isinstance(k, Bo) and k.k == "at" and k.p[0] == "equal":
            _, x, y, rel = k.p
            if (x, y) not in ((a, b), (b, a)):
                continue
            R = tuple(sum(1 << j for j in r) for r in rel)
            if (x, y) == (b, a):
                R = transpose(R)
            if R == EQ:
                return val
    return None


def plain(it, st, v, p):
    return v


def eq_ci(rep, prog, fs=None, name="cmp_eq_ci", wrap=plain, neg=False):
    """fs: the functions that must compare two texts ignoring ASCII case; wrap makes an argument from a text"""
    for f in fs if fs is not None else fns(prog, "cmp_eq_ci", 2):
        it = Objs(prog, rep)
        st = St()
        a, b = it.text("lhs", st), it.text("rhs", st)
        res, thr = it.run(f, [wrap(it, st, v, p) for v, p in zip((a, b), f["params"])], st)
        rep.analysed(f)
        for s0, v in res:
            t, n = it.branch(s0, it.to_bool(v, s0))
            t, n = (n, t) if neg else (t, n)
            for s, want in [(x, True) for x in t] + [(x, False) for x in n]:
                rep.obligation("%s outcomes compared" % name)
                if eq_facts(it, s, a, b) == want:
                    continue
                if want:
                    ok = it.same(s, a.n, b.n) and it.entails_pairs(s, a.root, a.lo, a.hi, b.root, b.lo - a.lo, EQ)
                else:
                    ok = differ(it, s, a, b)
                if not ok:
                    rep.violation("%s:%s" % (name, want), f, None, "%s can answer %s for texts that %s equal ignoring "
                                  "ASCII case" % (name, str(want != neg).lower(), "are not" if want else "are"))
        flush(rep, it, name)
        if thr:
            rep.violation(name + ":throw", f, None, "may throw")


def differ(it, s, a, b):
    d = a.n - b.n
    if it.entails(s, d + 1) or it.entails(s, -d + 1):
        return True
    if any(x in (d, -d) for x in s.ne):
        return True
    for k in s.dom:
        if k[0] == "P" and {k[1][1], k[2][1]} == {a.root, b.root}:
            p, q = (k[1], k[2]) if k[1][1] == a.root else (k[2], k[1])
            if it.same(s, p[2], q[2]):
                R = it.pair_at(s, a.root, p[2], b.root, q[2])
                if sub_rel(R, NEQ) and it.entails(s, -p[2]) and it.entails(s, p[2] - a.hi + 1) and \
                        it.entails(s, p[2] - b.hi + 1):
                    return True
    return False


def tw_ci(rep, prog, fs=None, name="cmp_tw_ci", wrap=plain):
    for f in fs if fs is not None else fns(prog, "cmp_tw_ci", 2):
        it = Objs(prog, rep)
        st = St()
        a, b = it.text("lhs", st), it.text("rhs", st)
        res, thr = it.run(f, [wrap(it, st, v, p) for v, p in zip((a, b), f["params"])], st)
        rep.analysed(f)
        for s, v in res:
            if isinstance(v, Ref):
                v = it.load(v.loc, "int", s)
            rep.obligation("%s outcomes compared" % name)
            ok = False
            if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and abs(v.t[0][1]) == 1 and \
                    isinstance(v.t[0][0], tuple) and v.t[0][0][0] == "lex3":
                _, x, y, m = v.t[0][0]
                sg = [[(z > 0) - (z < 0) for z in r] for r in m]
                if (x, y, v.t[0][1]) == (a, b, 1):
                    ok = sg == [[(LOWER[i] > LOWER[j]) - (LOWER[i] < LOWER[j]) for j in range(256)] for i in range(256)]
                elif (x, y, v.t[0][1]) == (b, a, -1):
                    ok = sg == [[(LOWER[i] > LOWER[j]) - (LOWER[i] < LOWER[j]) for j in range(256)] for i in range(256)]
            else:
                cases = [(s, v)]
                if isinstance(v, Lin) and not v.const:
                    cases = []
                    for op, w in (("<", -1), ("==", 0), (">", 1)):
                        t, _ = it.branch(s, it.compare(op, v, Lin(0), s))
                        cases += [(x, Lin(w)) for x in t]
                ok = all(isinstance(w, Lin) and w.const and ordered(it, x, a, b, w.c) for x, w in cases)
            if not ok:
                rep.violation(name + ":order", f, None, name + " is not the lexicographic order of the texts with ASCII "
                              "letters lower-cased")
        flush(rep, it, name)
        if thr:
            rep.violation(name + ":throw", f, None, "may throw")


def ordered(it, s, a, b, sign):
    """the state proves that the comparison of a and b has this sign"""
    pre = lambda i: it.entails_pairs(s, a.root, a.lo, i, b.root, b.lo - a.lo, EQ)
    if sign == 0:
        return it.same(s, a.n, b.n) and pre(a.hi)
    short, longer = (a, b) if sign < 0 else (b, a)
    if it.entails(s, short.n - longer.n + 1) and pre(short.hi):
        return True
    want = LT if sign < 0 else GT
    for k in s.dom:
        if k[0] == "P" and {k[1][1], k[2][1]} == {a.root, b.root}:
            p, q = (k[1], k[2]) if k[1][1] == a.root else (k[2], k[1])
            if it.same(s, p[2], q[2]) and sub_rel(it.pair_at(s, a.root, p[2], b.root, q[2]), want) and \
                    it.entails(s, p[2] - a.hi + 1) and it.entails(s, p[2] - b.hi + 1) and pre(p[2]):
                return True
    return False


# ---------------------------------------------------------------- from_string
WORDS = {True: ("1", "t", "true", "y", "yes"), False: ("0", "f", "false", "n", "no")}


def num_range(ty):
    return int_range(ty)


def state_of(it, s, v):
    if isinstance(v, Ref):
        k = it.vstate(v.loc, s)
        if k:
            return k
    raise facts.AnalysisError("the outcome is not an expected this analysis can read")


def judge_number(it, s, a, v, R):
    """None if the outcome is right for what the path established about the text"""
    k = state_of(it, s, v)
    parsed = [x for x in s.facts if isinstance(x, tuple) and x[0] in ("parsed", "range", "nonum")]
    if len(parsed) > 1:
        raise facts.AnalysisError("several number conversions on one path")
    integral = int_type(R) is not None
    fact = parsed[0] if parsed else None
    if fact and (fact[1] != a.root or not it.same(s, fact[2], a.lo) or len(fact) > 5):
        return "the number is not read from the whole text in base 10"
    if k == "some":
        if not fact or fact[0] != "parsed":
            return "succeeds although no representable number was read"
        if not it.same(s, fact[3], a.hi):
            return "succeeds although only a part of the text is a number"
        pv = s.mem.get(v.loc + (("val",),))
        key = ("num",) + fact[1:]
        if not integral:
            return None if pv == Tok(*key) and fact[4] == R else "the value is not the number that was read as %s" % R
        if pv != sym(key):
            return "the value is not the number that was read (it may be wrapped)"
        lo, hi = num_range(R)
        if not (it.entails(s, sym(key) - hi) and it.entails(s, Lin(lo) - sym(key))):
            return "the value may not be representable"
        return None
    if not fact:
        t, f = empty(it, s, a)
        return "fails without having looked at the text" if f else None
    V_, same = fact[4], fact[4] == R
    if fact[0] == "nonum":
        wider = same or (integral and int_type(V_) and (int_type(V_)[1] or not int_type(R)[1]))
        whole = it.same(s, fact[3], a.hi)
        return None if wider and whole else "fails although the text may be a number"
    if fact[0] == "range":
        if same:
            return None
        if integral and int_type(V_):
            (l1, h1), (l2, h2) = num_range(V_), num_range(R)
            if l1 <= l2 and h1 >= h2:
                return None
        return "fails although the number may be representable"
    if it.entails(s, fact[3] - a.hi + 1):
        return None
    if integral:
        lo, hi = num_range(R)
        key = sym(("num",) + fact[1:])
        if it.entails(s, Lin(hi + 1) - key) or it.entails(s, key - (lo - 1)):
            return None
    return "fails although the whole text may be a representable number"


def conversions(rep, prog, R):
    n = 0
    for f in fns(prog, "from_string_ns::from_string_t::operator()", 1):
        rty = f["ret"][len("fitoria::expected<"):-1].rsplit(", ", 1)[0]
        if short(rty) != R:
            continue
        n += 1
        it = Objs(prog, rep)
        st = St()
        a = it.text("text", st)
        this = it.tmp("fitoria::from_string_ns::from_string_t<%s>" % rty)
        res, thr = it.run(f, [a], st, this)
        rep.analysed(f)
        for s, v in res:
            rep.obligation("from_string<%s> outcomes compared" % R)
            if R == "bool":
                why = judge_bool(it, s, a, v)
            elif R in ("string", "string_view"):
                w = it.as_text(Ref(v.loc + (("val",),)), s) if state_of(it, s, v) == "some" else None
                why = None if w is not None and same_view(it, s, w, a) else "does not hand the text through unchanged"
            else:
                why = judge_number(it, s, a, v, R)
            if why:
                rep.violation("from_string<%s>:%s" % (R, why.split(" (")[0]), f, None, "from_string<%s> %s" % (R, why))
        if thr:
            rep.violation("from_string<%s>:throw" % R, f, None, "from_string<%s> may throw for some text" % R)
        flush(rep, it, "from_string<%s>" % R)
    if not n:
        raise facts.AnalysisError("from_string<%s> is gone" % R)


def judge_bool(it, s, a, v):
    k = state_of(it, s, v)
    val = None
    if k == "some":
        val = it.to_bool(it.load(v.loc + (("val",),), "bool", s), s)
        if val not in (TRUE, FALSE):
            raise facts.AnalysisError("a boolean this analysis cannot read")
        val = val is TRUE or val == TRUE
    rest = [s]
    for truth, ws in WORDS.items():
        for w in ws:
            nx = []
            for x in rest:
                t, f = it.cases_eq(x, a, w, lambda c: frozenset(b for b in range(256) if LOWER[b] == ord(c)))
                if t and val is not truth:
                    return "does not give %s for '%s'" % (str(truth).lower(), w)
                nx += f
            rest = nx
    if rest and k == "some":
        return "accepts a text that is none of the words"
    return None


def short(t):
    return "string" if t.startswith("std::basic_string<") else "string_view" if t.startswith("std::basic_string_view") else t


CONV = ["bool", "string", "string_view", "char", "signed char", "unsigned char", "short", "unsigned short", "int",
        "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double"]


def main_conv(rep):
    prog = facts.load("core")
    rep.soft = True
    report.parallel(rep, lambda r, j: conversions(r, prog, j), CONV)
    rep.require("outcomes", sum(n for k, n in rep.obl if "compared" in k), 60)


PARTS = {"trim": trims, "split": splits, "eq": eq_ci, "tw": tw_ci}


def main_str(rep):
    prog = facts.load("core")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("outcomes", sum(n for k, n in rep.obl if "compared" in k), 12)
    for n in ("trim", "ltrim", "rtrim", "split_of", "cmp_eq_ci", "cmp_tw_ci"):
        if not fns(prog, n):
            raise facts.AnalysisError("public function %s is gone" % n)


if __name__ == "__main__" and sys.argv[1:] == ["conv"]:
    report.run("C06", "abstract interpretation over character sequences",
               "for every text and target type: success exactly when the whole text is one representable number (or one of "
               "the boolean words), with exactly that value; otherwise an error; never an exception", main_conv)
elif __name__ == "__main__":
    report.run("C05", "abstract interpretation over character sequences",
               "for every text: trimming removes exactly the outer blanks, splitting yields exactly the trimmed "
               "pieces in order, comparisons equal those of the lower-cased texts; no read outside a text, no "
               "<cctype> call with a negative value", main_str)
