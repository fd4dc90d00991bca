"""Value-level models of the vocabulary and container types used by text-processing code.

optional / expected are modelled by their contract (decided separately by C03 and C04),
tuple / pair / vector / any by theirs; split_of and trim by the contract that the string
check (C05) decides.  A container that grows in a loop is not enumerated: every element
that enters it is handed to `sink`, where the check compares it with what the
specification says the element at that place must be.
"""
from text import *
from spec import trim as spec_trim


def targs(ty):
    """top-level template arguments of a type spelling"""
    ty = unq(ty)
    i = ty.find("<")
    if i < 0 or not ty.endswith(">"):
        return []
    out, d, cur = [], 0, ""
    for c in ty[i + 1:-1]:
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out if out != [""] else []


VEC = ("std::vector",)
MAPS = ("std::map", "std::unordered_map")
LOGS = (("vec",), ("maplog",))
OPT = ("fitoria::optional", "optional", "std::optional")
EXP = ("fitoria::expected", "expected", "std::expected")
TXT = ("std::basic_string_view", "std::basic_string")


class Objs(Text):
    summaries = ("split_of", "trim")

    def __init__(self, prog, rep=None):
        Text.__init__(self, prog, rep)
        self.lists = 0

    # ---------------------------------------------------------------- construction of a T
    def base(self, ty):
        return sq(unq(ty).rstrip("& "))

    def argty(self, e, i):
        a = (e or {}).get("args", [])
        if e and e.get("k") == "CXXOperatorCallExpr" and len(a) > i + 1:
            a = a[1:]
        return unq(a[i].get("t", "")) if i < len(a) and a[i] else ""

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        """construct a value of type ty at loc from args -> [states]"""
        ty = unq(ty)
        b = self.base(ty)
        s = st.copy()
        self.lty[loc] = ty
        if ty.endswith("&"):
            s.mem[loc] = args[0]
            return [s]
        if b in TXT:
            if not args:
                v = Str("")
            elif len(args) == 1:
                v = self.as_text(args[0], s)
                if isinstance(v, Tok) and v.k[:1] == ("moved",):
                    self.complain(e, "uses a moved-from string")
                    v = Str("")
            else:
                v = self.str_of(args, s, e)
            if not self.ext(s, v):
                raise AnalysisError("a string is made from %r" % (v,))
            self.put(loc, v, s)
            return [s]
        if not self.is_class(ty):
            self.clear(loc, s)
            if not args:
                s.mem[loc] = FALSE if ty == "bool" else Lin(0)
            else:
                v = args[0]
                if isinstance(v, Ref):
                    v = self.load(v.loc, ty, s)
                at = atys[0] if atys else ""
                if int_type(ty) and int_type(unq(at).rstrip("& ")) and not isinstance(v, (Bo, Tok)):
                    v = self.icast(v, unq(at).rstrip("& "), ty, s, e)
                self.store(loc, v, s)
            return [s]
        if len(args) == 1 and isinstance(args[0], Ref) and self.base(atys[0] if atys and atys[0] else
                                                                     self.lty.get(args[0].loc, "")) == b and not (
                b in ("std::tuple", "std::pair") and atys and atys[0] and unq(atys[0]).rstrip("& ") != ty):
            self.copy_obj(args[0].loc, loc, s)
            self.lty[loc] = ty
            return [s]
        fn = {"n": b.split("::")[-1], "qn": b + "::" + b.split("::")[-1], "id": -1, "dk": "CXXConstructor",
              "rec": ty}
        fe = {"k": "CXXConstructExpr", "t": ty, "cls": ty, "l": (e or {}).get("l", 0),
              "args": [{"t": t} for t in atys]}
        r = self.obj_model(b + "::" + fn["n"], fn, s, loc, args, fe, True)
        if r is not None:
            return [x for x, _ in r]
        rec = self.p.rec_by_type.get(ty)
        if rec is None:
            raise AnalysisError("construction of %s" % ty)
        cands = [f for f in self.p.fns.values() if f.get("kind") == "ctor" and
                 unq(f.get("rec", "")) == ty and len(f["params"]) == len(args) and f.get("body") is not None
                 and not f.get("defaulted")]
        if len(cands) > 1:
            cands = [f for f in cands if all(self.base(p["t"]) == self.base(t) or
                                             (self.is_class(p["t"]) == self.is_class(t))
                                             for p, t in zip(f["params"], atys))] or cands
            ex = [f for f in cands if all(self.base(p["t"]) == self.base(t) for p, t in zip(f["params"], atys))]
            cands = ex[:1] or cands
        if len(cands) == 1:
            vs = []
            for p, a in zip(cands[0]["params"], args):
                vs.append(a)
            return [x for x, _ in self.call_body(cands[0], loc, vs, s, fe, True)]
        if not args:
            return [x for x, _ in self.run_inits(rec, None, loc, s, fe)]
        if not cands and len(args) <= len(rec["fields"]) and not rec["bases"]:
            sts = [s]
            for i, f in enumerate(rec["fields"]):
                a = args[i:i + 1]
                sts = [y for x in sts for y in self.make(f["t"], loc + (("f", f["n"]),), a, atys[i:i + 1], x, e)]
            return sts
        raise AnalysisError("construction of %s from %d arguments" % (ty, len(args)))

    def as_text(self, v, st):
        """the text held by a value: a string, a view, or an object that wraps one"""
        if isinstance(v, Ref):
            n = len(v.loc)
            m = st.mem.get(v.loc)
            if m is None:
                inner = [k for k in st.mem if k[:n] == v.loc and len(k) == n + 1 and k[n][0] == "f"]
                if len(inner) == 1:
                    return self.as_text(Ref(inner[0]), st)
            if isinstance(m, Ref):
                return self.as_text(m, st)
        return self.txt(v, st)

    # ---------------------------------------------------------------- calls
    def hook_call(self, fn, st, this, args, e):
        n = sq(fn.get("qn", "?")).replace("fitoria::", "")
        if n in self.summaries and len(args) <= 2:
            r = self.summary(n, st, args, e)
            if r is not None:
                return r
        return self.obj_model(n, fn, st, this, args, e, e.get("k") in (
            "CXXConstructExpr", "CXXTemporaryObjectExpr"))

    def summary(self, n, st, args, e):
        a = self.txt(args[0], st)
        if n == "trim" and len(args) == 1 and isinstance(a, (V, Str)):
            return spec_trim(self, st, a)
        if n == "split_of" and len(args) == 2:
            d = self.txt(args[1], st)
            if isinstance(a, V) and isinstance(d, Str):
                return [self.make_list(st, a, bset(d.s))]
        return None

    def make_list(self, st, v, D):
        s = st.copy()
        loc = self.tmp("std::vector<std::basic_string_view<char>>")
        s.mem[loc] = Tok("list", v.root, D)
        s.mem[loc + (("lo",),)], s.mem[loc + (("hi",),)] = v.lo, v.hi
        self.lty[loc + (("lo",),)] = self.lty[loc + (("hi",),)] = "long"
        return s, Ref(loc)

    def list_at(self, st, loc):
        t = st.mem.get(loc)
        if isinstance(t, Tok) and t.k[:1] == ("list",):
            return V(t.k[1], st.mem[loc + (("lo",),)], st.mem[loc + (("hi",),)]), t.k[2]
        return None

    # ---------------------------------------------------------------- objects
    def obj_model(self, name, fn, st, this, args, e, ctor):
        cls, _, n = name.rpartition("::")
        ctor = ctor or fn.get("dk") == "CXXConstructor"
        if ctor and not cls:
            cls = name
        full = "fitoria::" + cls if not cls.startswith("std::") else cls
        if full in OPT or full in EXP:
            if this is None:
                return self.vocab_free(n, st, args, e)
            ty = unq(fn.get("rec", "")) or unq(e.get("cls", ""))
            return self.vocab_op(full in EXP, ty, n, fn, st, this, args, e, ctor)
        if full == "fitoria::unexpected":
            ty = unq(fn.get("rec", "")) or unq(e.get("cls", ""))
            s = st.copy()
            if ctor:
                if len(args) == 1 and self.base(self.argty(e, 0)) == "fitoria::unexpected":
                    self.copy_obj(args[0].loc, this, s)
                    return [(s, Ref(this))]
                s.mem[this] = Tok("unexpected")
                return [(x, Ref(this)) for x in self.make(targs(ty)[0], this + (("err",),), args,
                                                          [self.argty(e, i) for i in range(len(args))], s, e)]
            if n == "error":
                return [(s, Ref(this + (("err",),)))]
            return None
        if name in ("operator==", "operator!=", "optional::operator==", "expected::operator==") and len(args) == 2:
            return self.vocab_free(n, st, args, e)
        if n in ("basic_format_string", "basic_runtime", "runtime") and len(args) == 1:
            v = self.as_text(args[0], st)
            if isinstance(v, Str):
                if this is not None:
                    s = st.copy()
                    self.put(this, v, s)
                    return [(s, Ref(this))]
                return [(st, v)]
            raise AnalysisError("a format string that is not a literal")
        if n == "format" and args and (name.startswith("fmt::") or name == "std::format"):
            return self.format(st, args, e)
        if name == "std::to_string":
            v = self.pos(args[0], st)
            return [(st, Cat([("fmt", "", v)]))]
        if cls in ("std::tuple", "std::pair") and (ctor or n == "operator="):
            return self.tuple_ctor(fn, st, this, args, e)
        if name == "std::get" and fn.get("targs") and isinstance(args[0], Ref) and fn["targs"][0].rstrip("UL").isdigit():
            i = int(fn["targs"][0].rstrip("UL"))
            if st.mem.get(args[0].loc + (("get", "n"),)) is not None:
                return [(st, Ref(args[0].loc + (("get", i),)))]
        if name in ("std::make_tuple", "std::make_pair", "std::tie", "std::forward_as_tuple"):
            t = self.tmp(e.get("t", ""))
            return self.tuple_ctor({"rec": unq(e.get("t", ""))}, st, t, args, e)
        if cls in MAPS and this is not None:
            return self.map_op(n, fn, st, this, args, e, ctor)
        if cls in VEC:
            return self.vec_op(n, fn, st, this, args, e, ctor)
        if this is not None and isinstance(st.mem.get(this), Tok) and st.mem[this].k[:1] == ("vecit",):
            return self.vecit_op(n, st, this, args, e)
        if cls == "__gnu_cxx::__normal_iterator" and ctor and len(args) == 1 and self.base(self.argty(e, 0)) == cls:
            p = args[0]
            while isinstance(p, Ref):
                p = st.mem.get(p.loc)
            if isinstance(p, Ptr):
                s = st.copy()
                s.mem[this] = p
                return [(s, Ref(this))]
        if name.startswith("__gnu_cxx::") and args and all(isinstance(a, Ref) for a in args):
            return None
        return None

    def format(self, st, args, e):
        f = self.as_text(args[0], st)
        if not isinstance(f, Str):
            raise AnalysisError("a format string that is not a literal")
        parts, i, k, s = [], 0, 0, f.s
        while i < len(s):
            c = s[i]
            if s[i:i + 2] in ("{{", "}}"):
                parts.append(Str(c))
                i += 2
            elif c == "{":
                j = s.index("}", i)
                num, _, spec = s[i + 1:j].partition(":")
                n = int(num) if num else k
                k += 1
                if n + 1 >= len(args):
                    self.complain(e, "formats an argument that is not there")
                    return []
                parts.append(self.format_arg(args[n + 1], e["args"][n + 1], spec, st))
                i = j + 1
            else:
                parts.append(Str(c))
                i += 1
        return [(st, cat(*parts))]

    def format_arg(self, a, ae, spec, st):
        ty = unq((ae or {}).get("t", "").rstrip("& "))
        v = self.as_text(a, st)
        if not spec and self.ext(st, v):
            return v
        if isinstance(a, Ref) and not self.is_class(ty):
            v = self.load(a.loc, ty, st)
        if isinstance(v, Ref):
            return ("fmt", spec, Tok("obj", v.loc))
        if ty == "char" and not spec:
            return ("ch", v)
        return ("fmt", spec, v)

    # ---- optional / expected
    def vstate(self, loc, st):
        t = st.mem.get(loc)
        if isinstance(t, Tok) and t.k[:1] == ("opt",):
            return t.k[1]
        return None

    def vset(self, loc, st, v):
        self.clear(loc, st)
        st.mem[loc] = Tok("opt", v)

    def vocab_ctor(self, exp, ty, st, this, args, atys, e):
        ta = targs(ty)
        T = ta[0] if ta else "void"
        E = ta[1] if exp and len(ta) > 1 else None
        s = st.copy()
        val, err = this + (("val",),), this + (("err",),)
        if not args:
            self.vset(this, s, "some" if exp else "none")
            return [s] if not exp or T == "void" else self.make(T, val, [], [], s, e)
        b = self.base(atys[0])
        if b.endswith("nullopt_t"):
            self.vset(this, s, "none")
            return [s]
        if b.endswith("in_place_t"):
            self.vset(this, s, "some")
            return self.make(T, val, args[1:], atys[1:], s, e)
        if b.endswith("unexpect_t"):
            self.vset(this, s, "none")
            return self.make(E, err, args[1:], atys[1:], s, e)
        if isinstance(args[0], Ref) and s.mem.get(args[0].loc) == Tok("unexpected"):
            src = args[0].loc
            tmp = self.copy_aside(src, s)
            self.vset(this, s, "none")
            return self.make(E, err, [Ref(tmp + (("err",),))], [self.lty.get(src + (("err",),), "")], s, e)
        if self.base(T) in OPT + EXP and isinstance(args[0], Ref) and self.vstate(args[0].loc, s) is not None \
                and unq(atys[0]).rstrip("& ") == unq(ty) and args[0].loc != this:
            tmp = self.copy_aside(args[0].loc, s)
            self.clear(this, s)
            self.copy_obj(tmp, this, s)
            return [s]
        if (b in OPT or b in EXP) and isinstance(args[0], Ref) and self.vstate(args[0].loc, s) is not None \
                and self.base(T) not in OPT + EXP:
            k = self.vstate(args[0].loc, s)
            tmp = self.copy_aside(args[0].loc, s)
            self.vset(this, s, k)
            sa = targs(atys[0])
            if k == "some":
                if T == "void":
                    return [s]
                pv = Ref(tmp + (("val",),))
                if T.endswith("&"):
                    pv = s.mem.get(pv.loc, pv)
                return self.make(T, val, [pv], [sa[0] if sa else ""], s, e)
            if exp:
                return self.make(E, err, [Ref(tmp + (("err",),))], [sa[1] if len(sa) > 1 else ""], s, e)
            return [s]
        # a value
        a = args
        if len(args) == 1 and isinstance(args[0], Ref):
            tmp = self.copy_aside(args[0].loc, s) if args[0].loc[:len(this)] == this else None
            a = [Ref(tmp)] if tmp else args
        self.vset(this, s, "some")
        return self.make(T, val, a, atys, s, e)

    def copy_aside(self, loc, st):
        t = self.tmp(self.lty.get(loc, ""))
        self.copy_obj(loc, t, st)
        return t

    def vocab_op(self, exp, ty, n, fn, st, this, args, e, ctor):
        atys = [self.argty(e, i) for i in range(len(args))]
        val, err = this + (("val",),), this + (("err",),)
        if ctor:
            return [(s, Ref(this)) for s in self.vocab_ctor(exp, ty, st, this, args, atys, e)]
        if n.startswith("~"):
            return [(st, VOID)]
        if n == "operator=":
            return [(s, Ref(this)) for s in self.vocab_ctor(exp, ty, st, this, args, atys, e)]
        k = self.vstate(this, st)
        if n == "emplace":
            s = st.copy()
            self.vset(this, s, "some")
            return [(x, Ref(val)) for x in self.make(targs(ty)[0], val, args, atys, s, e)]
        if n == "reset":
            s = st.copy()
            self.vset(this, s, "none")
            return [(s, VOID)]
        if k is None:
            raise AnalysisError("an optional or expected of unknown state (%s)" % n)
        if n in ("has_value",) or n.startswith("operator bool"):
            return [(st, TRUE if k == "some" else FALSE)]

        def payload():
            m = st.mem.get(val)
            if isinstance(m, Ref):
                return m
            return Ref(val)
        self.obliged = getattr(self, "obliged", 0) + (n in ("operator*", "operator->"))
        if n in ("operator*", "operator->"):
            if k != "some":
                self.complain(e, "dereferences an empty %s" % ("expected" if exp else "optional"))
                return []
            p = payload()
            return [(st, p if n == "operator*" else Ptr(p.loc))]
        if n == "value":
            if k != "some":
                self.throw(st.copy(), Exc("fitoria::bad_%s_access" % ("expected" if exp else "optional"), e))
                return []
            return [(st, payload())]
        if n == "error":
            if k == "some":
                self.complain(e, "reads the error of an expected that holds a value")
                return []
            return [(st, Ref(err))]
        if n == "value_or":
            if k == "some":
                return [(st, payload())]
            s = st.copy()
            t = self.tmp(targs(ty)[0])
            return [(x, Ref(t)) for x in self.make(targs(ty)[0], t, args, atys, s, e)]
        if n in ("transform", "and_then", "or_else", "transform_error"):
            rty = unq(e.get("t", ""))
            t = self.tmp(rty)
            hit = (k == "some") == (n in ("transform", "and_then"))
            if not hit:
                s = st.copy()
                return [(x, Ref(t)) for x in self.vocab_ctor(exp, rty, s, t, [Ref(this)], [ty], e)]
            arg = [payload()] if n in ("transform", "and_then") else [Ref(err)] if exp else []
            out = []
            for s, v in self.call_value(args[0], arg, st, e):
                if n in ("and_then", "or_else"):
                    out.append((s, v))
                elif n == "transform":
                    self.vset(t, s, "some")
                    T = targs(rty)[0]
                    out += [(x, Ref(t)) for x in (self.make(T, t + (("val",),), [v], [T], s, e)
                                                  if T != "void" else [s])]
                else:
                    self.vset(t, s, "none")
                    E = targs(rty)[1]
                    out += [(x, Ref(t)) for x in self.make(E, t + (("err",),), [v], [E], s, e)]
            return out
        if n == "swap":
            s = st.copy()
            a, b = this, args[0].loc
            t = self.copy_aside(a, s)
            self.copy_obj(b, a, s)
            self.copy_obj(t, b, s)
            return [(s, VOID)]
        raise AnalysisError("%s on an optional or expected" % n)

    def vocab_free(self, n, st, args, e):
        if n not in ("operator==", "operator!=") or len(args) != 2:
            return None
        a, b = args
        ks = [self.vstate(x.loc, st) if isinstance(x, Ref) else None for x in (a, b)]
        if ks == [None, None]:
            return None
        flip = n == "operator!="
        t = lambda s, v: (s, (FALSE if v is TRUE else TRUE if v is FALSE else bo_not(v)) if flip else v)
        tys = [self.base((x or {}).get("t", "")) for x in e.get("args", [])]
        if any(x.endswith("nullopt_t") for x in tys):
            return [t(st, TRUE if "none" in ks else FALSE)]
        if None not in ks:
            if ks[0] != ks[1] or ks == ["none", "none"]:
                return [t(st, TRUE if ks[0] == ks[1] else FALSE)]
            vs = [Ref(x.loc + (("val",),)) for x in (a, b)]
        else:
            i = 0 if ks[0] else 1
            if ks[i] == "none":
                return [t(st, FALSE)]
            vs = [Ref(a.loc + (("val",),)) if i == 0 else a, Ref(b.loc + (("val",),)) if i == 1 else b]
        x, y = [self.as_text(v, st) for v in vs]
        if self.ext(st, x) and self.ext(st, y):
            return [t(s, v) for s, v in self.text_eq(x, y, st)]
        x, y = [self.load(v.loc, "int", st) if isinstance(v, Ref) else v for v in (x, y)]
        if isinstance(x, (Lin, U)) and isinstance(y, (Lin, U)):
            return [t(st, self.compare("==", x, y, st, e))]
        return None

    # ---- tuples
    def tuple_ctor(self, fn, st, this, args, e):
        ty = unq(fn.get("rec", ""))
        ts = targs(ty)
        s = st.copy()
        if len(args) == 1 and len(ts) != 1 or (len(args) == 1 and isinstance(args[0], Ref) and st.mem.get(
                args[0].loc + (("get", "n"),)) is not None):
            src = args[0].loc
            if st.mem.get(src + (("get", "n"),)) is None:
                return None
            src = self.copy_aside(src, s)
            st0 = targs(self.argty(e, 0)) or ts
            self.clear(this, s)
            s.mem[this + (("get", "n"),)] = Lin(len(ts))
            sts = [s]
            for i, t in enumerate(ts):
                l = src + (("get", i),)
                sts = [y for x in sts for y in self.make(t, this + (("get", i),), [x.mem[l] if isinstance(
                    x.mem.get(l), Ref) else Ref(l)], [st0[i] if i < len(st0) else t], x, e)]
            return [(x, Ref(this)) for x in sts]
        if len(args) not in (0, len(ts)):
            return None
        self.clear(this, s)
        s.mem[this + (("get", "n"),)] = Lin(len(ts))
        sts = [s]
        for i, t in enumerate(ts):
            sts = [y for x in sts for y in self.make(t, this + (("get", i),), args[i:i + 1],
                                                     [self.argty(e, i)] if args else [], x, e)]
        return [(x, Ref(this)) for x in sts]

    # ---- vectors
    def sink(self, st, vec, k, el, e):
        """element el becomes number k of vector vec (k not constant: inside a loop) -> states"""
        if not k.const:
            raise AnalysisError("a container grows in a loop this check does not follow")
        return [st]

    deferred = False    # what a round of a list loop adds is judged at the end of the round

    def defer_here(self, s):
        return self.deferred and self.GP in s.mem

    def settle(self, st, e):
        """judge the element added in this round of a list loop; older elements may not change"""
        out = [st]
        pend = [(k[0][2], c) for k, c in st.mem.items() if k[0][:2] == ("gh", "pend")]
        vecs = [k for k, v in st.mem.items() if isinstance(v, Tok) and v.k in LOGS]
        for vec in vecs:
            new = [c for v, c in pend if v == vec]
            n = len(vec)
            for k, v in st.mem.items():
                if k[:n] == vec and len(k) > n and k[n][0] == "i" and (k, v) not in self.lazy and k[n][1] not in new:
                    self.stale(st, vec, e)
                    return []
        for vec, c in pend:
            el = vec + (("i", c),)
            out = [y for x in out for y in self.sink(x, vec, c, el, e)]
        for x in out:
            for vec in vecs:
                for m in (x.mem, x.src):
                    for k in [k for k in m if k[:len(vec)] == vec and len(k) > len(vec) and k[len(vec)][0] == "i"]:
                        del m[k]
            for vec, c in pend:
                x.mem.pop((("gh", "pend", vec),), None)
        return out

    def stale(self, st, vec, e):
        raise AnalysisError("an element stored in an earlier round is changed")

    start = None        # where the ghost position of a new vector starts

    def vec_new(self, this, s):
        n, p = this + (("n",),), this + (("pos",),)
        s.mem[n] = Lin(0)
        self.lty[n] = "unsigned long"
        if self.start is not None:
            s.mem[p] = self.start
            self.lty[p] = "long"

    def vec_op(self, n, fn, st, this, args, e, ctor):
        ty = unq(fn.get("rec", "")) or unq(e.get("cls", ""))
        T = targs(ty)[0] if targs(ty) else "int"
        atys = [self.argty(e, i) for i in range(len(args))]
        if ctor:
            s = st.copy()
            a = [(v, t) for v, t in zip(args, atys) if self.base(t) != "std::allocator"]
            if not a:
                self.clear(this, s)
                s.mem[this] = Tok("vec")
                self.vec_new(this, s)
                return [(s, Ref(this))]
            if len(a) == 1 and isinstance(a[0][0], Ref):
                b = self.base(a[0][1])
                if b in VEC:
                    self.copy_obj(a[0][0].loc, this, s)
                    return [(s, Ref(this))]
                if b == "std::initializer_list" or a[0][1].endswith("]"):
                    src = a[0][0].loc
                    c = s.mem.get(src + (("n",),))
                    if isinstance(c, Lin) and c.const:
                        tmp = self.copy_aside(src, s)
                        self.clear(this, s)
                        s.mem[this] = Tok("vec")
                        s.mem[this + (("n",),)] = c
                        sts = [s]
                        for i in range(c.c):
                            sts = [y for x in sts for y in self.make(
                                T, this + (("i", Lin(i)),), [Ref(tmp + (("i", Lin(i)),))], [T], x, e)]
                        return [(x, Ref(this)) for x in sts]
            raise AnalysisError("construction of a vector")
        if this is None:
            return None
        if n.startswith("~"):
            return [(st, VOID)]
        if n == "operator=":
            s = st.copy()
            if isinstance(args[0], Ref) and (s.mem.get(args[0].loc) is not None):
                t = self.copy_aside(args[0].loc, s)
                self.copy_obj(t, this, s)
                return [(s, Ref(this))]
            raise AnalysisError("assignment of a vector")
        lst = self.list_at(st, this)
        if lst:
            return self.list_op(n, lst[0], lst[1], st, this, args, e)
        if not (isinstance(st.mem.get(this), Tok) and st.mem[this].k == ("vec",)):
            raise AnalysisError("%s() on an unknown vector" % n)
        c = st.mem[this + (("n",),)]
        if n in ("size",):
            return [(st, c)]
        if n == "empty":
            return self.decide(st, Bo("eq", c)) if not c.const else [(st, TRUE if c.c == 0 else FALSE)]
        if n in ("reserve", "shrink_to_fit"):
            return [(st, VOID)]
        if n == "clear":
            s = st.copy()
            self.clear(this, s)
            s.mem[this] = Tok("vec")
            self.vec_new(this, s)
            return [(s, VOID)]
        if n in ("push_back", "emplace_back"):
            s = st.copy()
            t = self.tmp(T)
            out = []
            if n == "push_back":
                atys = [T]
            later = self.defer_here(s)
            for x in [z for y in self.make(T, t, args, atys, s, e)
                      for z in ([y] if later else self.sink(y, this, c, t, e))]:
                x = x.copy()
                if later:
                    x.mem[(("gh", "pend", this),)] = c
                    self.lty[(("gh", "pend", this),)] = "long"
                    self.copy_obj(t, this + (("i", c),), x)
                el = this + (("i", c),)
                if c.const:
                    self.copy_obj(t, el, x)
                x.mem[this + (("n",),)] = c + 1
                self.clear(t, x)
                out.append((x, Ref(el) if n == "emplace_back" else VOID))
            return out
        if n in ("operator[]", "at", "front", "back"):
            i = Lin(0) if n == "front" else c - 1 if n == "back" else self.pos(args[0], st)
            self.obliged = getattr(self, "obliged", 0) + 1
            if not (self.entails(st, -i) and self.entails(st, i - c + 1)):
                if n == "at":
                    self.throw(st.copy(), Exc("std::out_of_range", e))
                else:
                    self.complain(e, "%s of an element the vector may not have" % n)
                return []
            return [(st, Ref(this + (("i", i),)))]
        if n in ("begin", "end", "cbegin", "cend"):
            return [(st, Ptr(this, Lin(0) if "begin" in n else c))]
        raise AnalysisError("%s() on a vector" % n)

    # ---- maps that are filled: the sequence of assignments is kept
    def map_op(self, n, fn, st, this, args, e, ctor):
        ty = unq(fn.get("rec", "")) or unq(e.get("cls", ""))
        K, T = (targs(ty) + ["?", "?"])[:2]
        atys = [self.argty(e, i) for i in range(len(args))]
        if ctor:
            s = st.copy()
            a = [(v, t) for v, t in zip(args, atys) if self.base(t) not in ("std::allocator", "std::less")]
            if not a:
                self.clear(this, s)
                s.mem[this] = Tok("maplog")
                self.vec_new(this, s)
                return [(s, Ref(this))]
            if len(a) == 1 and isinstance(a[0][0], Ref) and self.base(a[0][1]) in MAPS:
                self.copy_obj(a[0][0].loc, this, s)
                return [(s, Ref(this))]
            raise AnalysisError("construction of a map")
        if n.startswith("~"):
            return [(st, VOID)]
        if n == "operator=" and isinstance(args[0], Ref) and args[0].loc in st.mem:
            s = st.copy()
            t = self.copy_aside(args[0].loc, s)
            self.copy_obj(t, this, s)
            return [(s, Ref(this))]
        if not (isinstance(st.mem.get(this), Tok) and st.mem[this].k == ("maplog",)):
            raise AnalysisError("%s() on an unknown map" % n)
        c = st.mem[this + (("n",),)]
        if n == "size" and c == Lin(0):
            return [(st, c)]
        if n == "empty":
            return self.decide(st, Bo("eq", c)) if not c.const else [(st, TRUE if c.c == 0 else FALSE)]
        if n in ("contains", "count"):
            if c == Lin(0):
                return [(st, FALSE if n == "contains" else Lin(0))]
            return [(st, TRUE if n == "contains" else Lin(1)), (st.copy(), FALSE if n == "contains" else Lin(0))]
        keep = n in ("emplace", "try_emplace", "insert")
        if n in ("operator[]", "insert_or_assign", "emplace", "try_emplace", "insert"):
            if n == "insert":
                if len(args) != 1 or not isinstance(args[0], Ref) or self.base(atys[0]) not in ("std::pair",):
                    raise AnalysisError("insert() of something that is not a pair")
                p, (k, t) = args[0].loc, (targs(atys[0]) + ["?", "?"])[:2]
                args, atys = [Ref(p + (("get", i),)) for i in (0, 1)], [k, t]
            if self.GP not in st.mem or not self.deferred:
                raise AnalysisError("a map is filled outside a loop over pieces")
            el = this + (("i", c),)
            out = []
            s = st.copy()
            for x in self.make(K, el + (("f", "first"),), args[:1], atys[:1], s, e):
                for y in self.make(T, el + (("f", "second"),), args[1:2], atys[1:2], x, e):
                    y = y.copy()
                    y.mem[el + (("keep",),)] = TRUE if keep else FALSE
                    y.mem[this + (("n",),)] = c + 1
                    y.mem[(("gh", "pend", this),)] = c
                    self.lty[(("gh", "pend", this),)] = "long"
                    self.lty[el + (("keep",),)] = "bool"
                    out.append((y, Ref(el + (("f", "second"),)) if n == "operator[]" else Tok("unmodelled")))
            return out
        raise AnalysisError("%s() on a map" % n)

    # ---- the list of pieces made by split_of
    def nth(self, st, v, D, k):
        """(state, kth piece or None)"""
        from spec import piece
        work, out = [(st, v, 0)], []
        while work:
            s, r, i = work.pop()
            for s2, p, rest in piece(self, s, r, D):
                if i == k:
                    for s3, w in spec_trim(self, s2, p):
                        out.append((s3, w))
                elif rest is None:
                    out.append((s2, None))
                else:
                    work.append((s2, rest, i + 1))
        return out

    def list_op(self, n, v, D, st, this, args, e):
        from spec import piece
        # all pieces dropped?
        if n in ("size", "empty"):
            gone = self.assume_le(st.copy(), v.hi - v.lo + 1)
            more = self.assume_le(st.copy(), v.lo - v.hi)
            out = []
            if gone:
                out.append((gone, Lin(0) if n == "size" else TRUE))
            if more is None:
                return out
            if n == "empty":
                return out + [(more, FALSE)]
            work = [(more, v, 0)]
            while work:
                s, r, i = work.pop()
                if i == 4:
                    k = self.fresh("many", "unsigned long")
                    s = s.copy()
                    s.cons = s.cons + (Lin(5) - sym(k), sym(k) - BIG)
                    out.append((s, sym(k)))
                    continue
                for s2, p, rest in piece(self, s, r, D):
                    if rest is None:
                        out.append((s2, Lin(i + 1)))
                    else:
                        work.append((s2, rest, i + 1))
            return out
        if n in ("operator[]", "at", "front", "back"):
            i = Lin(0) if n == "front" else None if n == "back" else self.pos(args[0], st)
            if i is None or not i.const:
                raise AnalysisError("a piece at an unknown index")
            out = []
            for s in [self.assume_le(st.copy(), v.lo - v.hi)]:
                gone = self.assume_le(st.copy(), v.hi - v.lo + 1)
                if gone is not None:
                    self.complain(e, "reads a piece of an empty list")
                if s is None:
                    continue
                for s2, p in self.nth(s, v, D, i.c):
                    self.obliged = getattr(self, "obliged", 0) + 1
                    if p is None:
                        if n == "at":
                            self.throw(s2, Exc("std::out_of_range", e))
                        else:
                            self.complain(e, "reads piece %d of a list that may be shorter" % i.c)
                        continue
                    s2 = s2.copy()
                    l = this + (("p", i.c),)
                    self.put(l, p, s2)
                    out.append((s2, Ref(l)))
            return out
        if n in ("begin", "cbegin"):
            return [(st, Ptr(this + (("it",),), Lin(0)))]
        if n in ("end", "cend"):
            return [(st, Ptr(this + (("it",),), Lin(BIG)))]
        if n == "erase" and len(args) == 1:
            p = args[0] if isinstance(args[0], Ptr) else self.load(args[0].loc, "char*", st)
            if isinstance(p, Ptr) and p.loc == this + (("it",),) and p.off == Lin(0):
                out = []
                for s, q, rest in piece(self, st, v, D):
                    s = s.copy()
                    for k in [k for k in s.mem if k[:len(this)] == this and len(k) > len(this) and k[len(this)][0] == "p"]:
                        del s.mem[k]
                    s.mem[this + (("lo",),)] = rest.lo if rest is not None else v.hi + 1
                    out.append((s, Ptr(this + (("it",),), Lin(0))))
                return out
        raise AnalysisError("%s() on a list of pieces" % n)

    # ---- for checks: where the loop over the pieces stands
    def current(self, st):
        """the piece the loop is at"""
        from spec import piece
        if self.GP not in st.mem:
            raise AnalysisError("not in a loop over pieces")
        root, D = st.mem[self.GL].k[1:]
        r = piece(self, st, V(root, st.mem[self.GP], st.mem[self.GHI]), D)
        nx = st.mem[(("gh", "next"),)]
        for s, p, rest in r:
            q = spec_trim(self, s, p)
            if len(r) == 1 and len(q) == 1:
                return q[0][1]
        raise AnalysisError("the current piece is not determined")

    def on_list(self, st, v, D):
        """did the run go through the pieces of exactly this text?"""
        if self.GL not in st.mem:
            return False
        root, d = st.mem[self.GL].k[1:]
        return root == v.root and d == D and self.same(st, st.mem[self.GLO], v.lo) and self.same(st, st.mem[self.GHI], v.hi)

    def whole_list(self, st, vec):
        n = st.mem.get(vec + (("n",),))
        return n is not None and self.same(st, n, st.mem[self.GK]) and self.same(st, st.mem[self.GP], st.mem[self.GHI] + 1)

    def current_cases(self, st):
        """[(state, piece)] for the piece at which a loop stopped; None if it went through all of them"""
        from spec import piece
        root, D = st.mem[self.GL].k[1:]
        t, f = self.branch(st, self.cmp_lin("<=", st.mem[self.GP] - st.mem[self.GHI]))
        out = [None] if f else []
        for s in t:
            for s2, p, rest in piece(self, s, V(root, s.mem[self.GP], s.mem[self.GHI]), D):
                out += spec_trim(self, s2, p)
        return out

    def run_setup(self):
        from absint import Frame
        self.frames = [Frame("client", {"full": "client", "file": "", "ret": "void"}, None, {}, 0)]
        self.rets = [[]]
        self.tc = [[]]

    GL, GLO, GHI, GK, GP = [(("gh", x),) for x in ("list", "lo", "hi", "k", "pos")]

    def other_range(self, n, rl, st):
        l = st.mem.get(rl)
        if isinstance(l, Ref):
            rl = l.loc
        lst = self.list_at(st, rl)
        if not lst:
            return Text.other_range(self, n, rl, st)
        return self.list_loop(n, rl, lst[0], lst[1], st)

    def list_loop(self, n, rl, v, D, st):
        """for every piece of a split list; the ghost position is where the current piece starts"""
        from spec import piece
        fr = self.frames[-1]
        var = n["var"]
        vloc = (("v", fr.fid, var["id"]),)
        st = st.copy()
        if any(k in st.mem for k in (self.GL,)) and self.nested_lists:
            raise AnalysisError("nested loops over lists")
        for k, x in ((self.GLO, v.lo), (self.GHI, v.hi), (self.GK, Lin(0)), (self.GP, v.lo)):
            st.mem[k] = x
            self.lty[k] = "long"
        st.mem[self.GL] = Tok("list", v.root, D)
        nxt = (("gh", "next"),)
        st.mem[nxt] = v.lo
        self.lty[nxt] = "long"
        ploc = (("v", fr.fid, ("piece", var["id"])),)

        some = self.entails(st, v.lo - v.hi)

        def cond(s):
            i = s.mem[self.GP]
            # the ghost position is the start of a piece or just past the last one
            s = self.assume_le(s, i - v.hi - 1)
            if s is None:
                return [], []
            ts, fs = self.branch(s, self.cmp_lin("<=", i - v.hi))
            if some:
                # a list that is not empty has had at least one round
                fs = [x for x in (self.assume_le(x, Lin(1) - x.mem[self.GK]) for x in fs) if x is not None]
            res = []
            for t in ts:
                for t2, p, rest in piece(self, t, V(v.root, i, v.hi), D):
                    for t3, w in spec_trim(self, t2, p):
                        t3 = t3.copy()
                        t3.mem[nxt] = rest.lo if rest is not None else v.hi + 1
                        self.lty[vloc] = unq(var["t"])
                        if is_ref(var["t"]):
                            self.put(ploc, w, t3)
                            t3.mem[vloc] = Ref(ploc)
                        else:
                            self.put(vloc, w, t3)
                        res.append(t3)
            for t in fs:
                for k in (vloc, ploc):
                    self.clear(k, t)
            return res, fs
        INC = {"k": "?next", "l": n.get("l"), "drop": (vloc, ploc)}
        return self.loop(n, [st], cond, n["body"], INC)

    nested_lists = False

    def e_default(self, e, st):
        if e.get("k") == "?next":
            out = []
            for s in self.settle(st.copy(), e) if self.deferred else [st]:
                s = s.copy()
                s.mem[self.GP] = s.mem[(("gh", "next"),)]
                s.mem[self.GK] = s.mem[self.GK] + 1
                for k in e["drop"]:
                    self.clear(k, s)
                out.append((s, VOID))
            return out
        return Text.e_default(self, e, st)

    def vecit_op(self, n, st, this, args, e):
        return None
