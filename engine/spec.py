"""Specification side of the text analyses.

A specification is a function over the same domain as the interpreted code: it is run from
every state in which the code returns, splits cases where the state does not decide it, and
its outcome is compared with what the code returned.  Splits that contradict what the code
already established on that path are pruned by the domain.
"""
from text import *


class Goal(Exception):
    pass


def trim(it, st, v, S=SPACE):
    """v without leading and trailing characters of S"""
    if isinstance(v, Str):
        cs = [i for i, c in enumerate(v.s) if ord(c) not in S]
        return [(st, Str(v.s[cs[0]:cs[-1] + 1] if cs else ""))]
    out = []
    for s, a in it.find_model(st, v, inv(S)):
        if a == Lin(NPOS):
            out.append((s, V(v.root, v.hi, v.hi)))
            continue
        for s2, b in it.find_model(s, v, inv(S), back=True):
            if b != Lin(NPOS):
                # the last one is not before the first one
                s3 = it.assume_le(s2, a - b)
                if s3 is not None:
                    out.append((s3, V(v.root, v.lo + a, v.lo + b + 1)))
    return out


def piece(it, st, v, D):
    """first piece of v delimited by D -> (state, piece, rest or None)"""
    out = []
    for s, p in it.find_model(st, v, D):
        if p == Lin(NPOS):
            out.append((s, v, None))
        else:
            out.append((s, V(v.root, v.lo, v.lo + p), V(v.root, v.lo + p + 1, v.hi)))
    return out


def split(it, st, v, D, limit):
    """(state, pieces, complete): up to `limit` trimmed pieces; complete says there are no more"""
    work = [(st, [], v)]
    out = []
    while work:
        s, ps, r = work.pop()
        if r is None:
            out.append((s, ps, True))
        elif len(ps) == limit:
            out.append((s, ps, False))
        else:
            for s2, p, r2 in piece(it, s, r, D):
                work.append((s2, ps + [p], r2))
    res = []
    for s, ps, done in out:
        acc = [(s, [])]
        for p in ps:
            acc = [(s3, q + [w]) for s2, q in acc for s3, w in trim(it, s2, p)]
        res += [(s2, q, done) for s2, q in acc]
    return res


def same_view(it, st, a, b):
    """do the two text values denote the same characters (same place, or both empty)?"""
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    if isinstance(a, Str) or isinstance(b, Str):
        s, v = (a.s, b) if isinstance(a, Str) else (b.s, a)
        if not isinstance(v, V) or not it.same(st, v.n, Lin(len(s))):
            return False
        return all(it.dom_at(v.root, v.lo + k, st) <= dec(v.root, c) for k, c in enumerate(s))
    if not isinstance(a, V) or not isinstance(b, V):
        return a == b
    if it.entails(st, a.n) and it.entails(st, b.n):
        return True
    return a.root == b.root and it.same(st, a.lo, b.lo) and it.same(st, a.hi, b.hi)


def dec(root, c):
    b, tab = root_base(root)
    return frozenset(x for x in range(256) if tab[x] & 255 == ord(c) & 255)


def all_in(it, st, v, S):
    """(states where every character of v is in S, states where one is not)"""
    if isinstance(v, Str):
        return ([st], []) if bset(v.s) <= S else ([], [st])
    r = it.find_model(st, v, inv(S))
    return [s for s, p in r if p == Lin(NPOS)], [s for s, p in r if p != Lin(NPOS)]


def empty(it, st, v):
    """(states where v is empty, states where it is not)"""
    if isinstance(v, Str):
        return ([st], []) if not v.s else ([], [st])
    t = it.assume_le(st, v.n)
    f = it.assume_le(st, Lin(1) - v.n)
    return [t] if t else [], [f] if f else []


def load_text(it, st, v):
    if isinstance(v, Ref):
        v = it.load(v.loc, "std::basic_string_view<char>", st)
    return it.txt(v, st)


def fns(prog, qn, np=None, pred=None):
    return [f for f in prog.fns.values() if f["sqn"] == qn and f.get("body") and
            (np is None or len(f["params"]) == np) and (pred is None or pred(f))]
