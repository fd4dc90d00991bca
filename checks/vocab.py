"""optional / expected: typestate and value-provenance analysis against the vocabulary-type
contract.  One operation at a time is interpreted abstractly from every engagement state,
with declared-only element types whose operations may throw unless declared otherwise."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from facts import *
from values import *
import facts
import report
from absint import Interp, St, Exc, sq, unq

PROBES = ("vp::tv", "vp::nv", "vp::te", "vp::ne", "vp::xv", "vp::fv", "vp::src<0>", "vp::src<1>",
          "vp::src<2>")
ANY = Tok("any")
MOVED = Tok("moved-from")


def probe(ty):
    return unq(ty) in PROBES


def bare(t):
    return unq(t.rstrip("& "))


class V(Interp):
    def __init__(self, prog, rep):
        Interp.__init__(self, prog)
        self.rep = rep
        self.bad = []
        self.escape_ok = True

    def complain(self, node, msg, fn=None):
        f = self.frames[-1].fn if self.frames else {}
        self.bad.append((f, (node or {}).get("l", 0), msg))

    # ---- liveness
    def al(self, st, loc):
        return st.x.get(("al", loc))

    def use(self, st, loc, e, what):
        c = self.al(st, loc)
        if c is None:
            self.complain(e, "%s on storage that holds no live object" % what)
            return ANY
        return c

    def content(self, v, ty, st, e):
        """content of an argument value used as a source"""
        if isinstance(v, Ref):
            if probe(self.lty.get(v.loc, "")) or ("al", v.loc) in st.x or probe(ty):
                return self.use(st, v.loc, e, "read of a " + short(unq(ty)))
            return self.load(v.loc, ty, st)
        return v

    def is_rvalue(self, a):
        return a.get("lv") != 1 and not a.get("t", "").startswith("const ")

    def take(self, st, v, a, e):
        """content of source v (argument expression a), marking it moved-from if an rvalue"""
        ty = a.get("t", "") if a else ""
        c = self.content(v, ty, st, e)
        if a and self.is_rvalue(a) and isinstance(v, Ref) and ("al", v.loc) in st.x:
            st.x[("al", v.loc)] = MOVED
        return c

    def nothrow(self, ty, args):
        t = unq(ty)
        if t == "vp::fv":
            return True
        if t in ("vp::nv", "vp::ne", "vp::xv"):
            return len(args) == 1 and args[0] is not None and self.is_rvalue(args[0]) and \
                unq(args[0].get("t", "")) == t
        return False

    def boom(self, st, e, ty):
        self.throw(st.copy(), Exc("vp::boom", e, "operation of " + short(unq(ty))))

    def make(self, loc, ty, vs, aexprs, st, e):
        """construct an element of type ty at loc"""
        s = st.copy()
        if probe(ty):
            if not self.nothrow(ty, aexprs):
                self.boom(s, e, ty)
            if self.al(s, loc) is not None:
                self.complain(e, "constructs an object on top of a live one (it is never destroyed)")
            cs = [self.take(s, v, a, e) for v, a in zip(vs, aexprs)]
            s.x[("al", loc)] = cs[0] if len(cs) == 1 else Tok("args", *cs)
            self.lty[loc] = unq(ty)
            return [(s, Ref(loc))]
        if self.is_class(ty):
            raise AnalysisError("construction of unmodelled type " + ty)
        v = vs[0] if vs else Lin(0)
        if isinstance(v, Ref):
            v = self.load(v.loc, ty, s)
        self.store(loc, v, s, e, ty)
        return [(s, Ref(loc))]

    def kill(self, loc, ty, st, e):
        s = st.copy()
        if probe(ty):
            if self.al(s, loc) is None:
                self.complain(e, "destroys storage that holds no live object")
            s.x.pop(("al", loc), None)
        else:
            self.clear(loc, s)
            s.src[loc] = ((self.fresh("dead"),),)
        return s

    def hook_call(self, fn, st, this, args, e):
        name = sq(fn.get("qn", "?"))
        aex = e.get("args", [])
        if name.startswith("vp::"):
            parts = name.split("::")
            if len(parts) == 3 and parts[1] == "fun":
                return self.functor(fn, st, this, args, aex[1:], e)
            if len(parts) == 3 and parts[1] == "fun0":
                return self.functor(fn, st, this, args, [], e)
            cls = parts[1]
            if len(parts) == 3 and (cls in ("src",) or "vp::" + cls in PROBES):
                if parts[2] == cls:
                    return self.make(this, e.get("cls", e.get("t", "")), args, aex, st, e)
                if parts[2] == "operator=":
                    if e.get("k") == "CXXMemberCallExpr":
                        return self.assign(this, args[0], aex[0], st, e)
                    return self.assign(this, args[0], aex[-1], st, e)
                if parts[2].startswith("~"):
                    return [(self.kill(this, self.lty.get(this, "vp::" + cls) if cls == "src"
                                       else "vp::" + cls, st, e), VOID)]
            return None
        if name in ("std::construct_at", "std::_Construct") and args:
            p = args[0]
            ty = unq(aex[0]["t"]).rstrip("* ")
            if not isinstance(p, Ptr) or p.loc is None:
                raise AnalysisError("construct_at through an unresolved pointer")
            if self.is_class(ty) and not probe(ty):
                return None
            return [(s, Ptr(p.loc)) for s, _ in self.make(p.loc, ty, args[1:], aex[1:], st, e)]
        if name in ("std::destroy_at", "std::_Destroy") and args:
            p = args[0]
            ty = unq(aex[0]["t"]).rstrip("* ")
            return [(self.kill(p.loc, ty, st, e), VOID)]
        if name in ("std::invoke", "std::__invoke", "std::invoke_r") and args and isinstance(
                args[0], Ref) and self.lty.get(args[0].loc, "").startswith("vp::fun"):
            return self.functor(fn, st, args[0].loc, args[1:], aex[1:], e)
        if name == "std::swap" and len(args) == 2 and all(isinstance(a, Ref) for a in args):
            a, b = args
            if probe(self.lty.get(a.loc, "")) or probe(aex[0]["t"]):
                s = st.copy()
                ty = aex[0]["t"]
                if unq(ty) not in ("vp::nv", "vp::ne", "vp::fv", "vp::xv"):
                    self.boom(s, e, ty)
                x, y = self.use(s, a.loc, e, "swap"), self.use(s, b.loc, e, "swap")
                s.x[("al", a.loc)], s.x[("al", b.loc)] = y, x
                return [(s, VOID)]
        return None

    def assign(self, dst, v, a, st, e):
        s = st.copy()
        ty = self.lty.get(dst, "")
        if unq(ty) != "vp::fv" and not (unq(ty) in ("vp::nv", "vp::ne", "vp::xv")
                                        and self.is_rvalue(a) and bare(a.get("t", "")) == unq(ty)):
            s0 = s.copy()
            if self.al(s0, dst) is not None:
                s0.x[("al", dst)] = ANY      # basic guarantee of the element
            self.throw(s0, Exc("vp::boom", e, "assignment"))
        self.use(s, dst, e, "assignment")
        if isinstance(v, Ref) and v.loc == dst:
            return [(s, Ref(dst))]
        c = self.take(s, v, a, e)
        if self.al(s, dst) is not None:
            s.x[("al", dst)] = c
        return [(s, Ref(dst))]

    def functor(self, fn, st, this, args, aex, e):
        s = st.copy()
        rec = self.p.fns.get(fn["id"]) or {}
        ret = e.get("t", "")
        if args:
            c = self.content(args[0], aex[0].get("t", ""), s, e)
            cat = ("c" if aex[0].get("t", "").startswith("const ") else "") + (
                "l" if aex[0].get("lv") == 1 else "r")
            call = (cat, c)
        else:
            call = ()
        s.x["calls"] = s.x.get("calls", ()) + (call,)
        self.boom(s, e, "callable")
        if unq(ret) == "void":
            return [(s, VOID)]
        if probe(ret):
            t = self.tmp(unq(ret))
            s.x[("al", t)] = Tok("fr")
            return [(s, Ref(t))]
        out = []
        for kind, m in self.makers(ret):
            for s2, loc in self.build(ret, kind, m, s, "fr"):
                s2.x["fret"] = kind
                out.append((s2, Ref(loc)))
        return out

    # ---- object construction through the library's own constructors
    def makers(self, ty):
        out = []
        for f in self.mk_by_ret.get(unq(ty), []):
            out.append((f["n"].split("_")[1], f))
        if not out:
            raise AnalysisError("no maker for " + ty)
        return out

    def build(self, ty, kind, m, st, cname):
        """states with a fresh object of class ty in the given state; contents named cname"""
        s = st.copy()
        args = []
        srcs = []
        for p in m["params"]:
            self.n += 1
            loc = (("mk", cname, self.n),) if not p["t"].endswith("&") or p["t"].startswith("const") \
                and not self.refty(ty) else (("tgt", cname),)
            self.lty[loc] = bare(p["t"])
            if probe(bare(p["t"])):
                s.x[("al", loc)] = Tok(cname)
            else:
                s.mem[loc] = self.scalars_of.get(cname, Tok(cname))
            if loc[0][0] == "mk":
                srcs.append(loc)
            args.append(Ref(loc))
        res = self.run(m, args, s)
        out = []
        for s2, v in res[0]:
            for l in srcs:
                s2.x.pop(("al", l), None)
            out.append((s2, v.loc))
        if len(out) != 1:
            raise AnalysisError("maker %s of %s has %d outcomes" % (m["n"], ty, len(out)))
        return out

    def refty(self, ty):
        return "&" in ty

    def run(self, f, args, st):
        self.tc.append([])
        e = {"k": "CallExpr", "t": f["ret"], "args": [], "l": f["l"]}
        saved = self.bad
        res = self.call_body(f, None, args, st, e)
        thr = self.tc.pop()
        return res, thr

    # ---- memory discipline of ghosts
    def move_ghosts(self, src, dst, st):
        n = len(src)
        for k in [k for k in st.x if isinstance(k, tuple) and k[0] == "al" and k[1][:n] == src]:
            st.x[("al", dst + k[1][n:])] = st.x.pop(k)

    def copy_obj(self, src, dst, st):
        if src == dst:
            return
        Interp.copy_obj(self, src, dst, st)
        self.move_ghosts(src, dst, st)

    def memberwise(self, rec, fn, dst, src, st, e, assign):
        kind = e.get("ctor") or ("move" if e.get("args") and e["args"][-1].get("lv") != 1 else "copy")
        n = len(src)
        al = [(k[1], c) for k, c in st.x.items()
              if isinstance(k, tuple) and k[0] == "al" and k[1][:n] == src]
        Interp.copy_obj(self, src, dst, st)
        for loc, c in al:
            d = dst + loc[n:]
            ty = self.lty.get(loc, "")
            if not assign and self.al(st, d) is not None:
                self.complain(e, "memberwise copy over a live object")
            a = {"lv": kind == "copy", "t": ("const " if kind == "copy" else "") + ty}
            if not self.nothrow(ty, [a]):
                self.boom(st, e, ty)
            st.x[("al", d)] = c
            self.lty[d] = ty
            if kind == "move":
                st.x[("al", loc)] = MOVED
        return [(st, Ref(dst))]

    def init_field(self, loc, v, st, node, ty):
        """member initialiser: the initialising temporary is the member itself"""
        self.assign_val(loc, v, st, node, ty)

    def scope_gone(self, fid, s):
        Interp.scope_gone(self, fid, s)
        for k in [k for k in s.x if isinstance(k, tuple) and k[0] == "al"
                  and k[1][0][0] == "v" and k[1][0][1] == fid]:
            del s.x[k]

    def needs_dtor(self, v):
        return probe(v["t"]) or Interp.needs_dtor(self, v)

    def run_dtor(self, loc, ty, st):
        if probe(ty):
            s = st.copy()
            s.x.pop(("al", loc), None)
            return [s]
        return Interp.run_dtor(self, loc, ty, st)

    def call_body(self, rec, this, args, st, e, ctor=False):
        mark = len(self.tc[-1]) if self.tc else 0
        if not self.tc:
            self.tc = [[]]
            mark = 0
        r = Interp.call_body(self, rec, this, args, st, e, ctor)
        if rec.get("nothrow") and len(self.tc[-1]) > mark:
            for s, x in self.tc[-1][mark:]:
                self.bad.append((rec, rec["l"], "declared noexcept but an exception (%s) can "
                                 "leave it: std::terminate" % (x.why or x.ty)))
            del self.tc[-1][mark:]
        return r

    def e_CXXThrowExpr(self, e, st):
        if e.get("e") is None:
            return Interp.e_CXXThrowExpr(self, e, st)
        for s, v in self.ev(e["e"], st):
            x = Exc(unq(e["e"]["t"]), e)
            if isinstance(v, Ref):
                n = len(v.loc)
                x.content = [c for k, c in s.x.items() if isinstance(k, tuple) and k[0] == "al"
                             and k[1][:n] == v.loc]
                x.content += [c for k, c in s.mem.items() if k[:n] == v.loc and len(k) > n]
            self.throw(s, x)
        return []

    def hook_assert(self, st, node):
        self.complain(node, "an internal precondition assertion can fail")

    def hook_unknown(self, node, why):
        raise AnalysisError("unmodelled: " + why)

    def may_throw(self, fn, e):
        return False

    def external(self, fn, rec, this, args, st, e):
        n = sq(fn.get("qn", "?"))
        if n.startswith(("std::exception", "vp::")) or "bad_" in n:
            return Interp.external(self, fn, rec, this, args, st, e)
        if "::~" in n and not n.startswith("std::"):
            return [(st, VOID)]         # defaulted and trivial
        raise AnalysisError("call of unmodelled function %s" % n)


# --------------------------------------------------------------------------- observation

class Odd(Exception):
    pass


def observe(it, ty, loc, st):
    """('n'|'v'|'e', content, location) of the object at loc; raises Odd"""
    obs = it.obs.get(unq(ty))
    if obs is None:
        raise AnalysisError("no observer for " + ty)
    it.bad = []
    res, thr = it.run(obs["q_has"], [Ref(loc)], st.copy())
    if it.bad or thr:
        raise Odd("has_value() misbehaves")
    if len(res) != 1 or not (isinstance(res[0][1], Bo) and res[0][1].k == "c"):
        raise Odd("engagement is indeterminate (uninitialised flag)")
    has = res[0][1] == TRUE
    isopt = unq(ty).startswith(("fitoria::optional", "fitoria::v0::optional"))
    kind = "v" if has else ("n" if isopt else "e")
    q = "q_val" if has else (None if isopt else "q_err")
    c, l = None, None
    live = set()
    if q and obs.get(q):
        it.bad = []
        res, thr = it.run(obs[q], [Ref(loc)], st.copy())
        if it.bad or thr or len(res) != 1 or not isinstance(res[0][1], Ref):
            raise Odd("its accessor misbehaves" + (": " + it.bad[0][2] if it.bad else ""))
        l = res[0][1].loc
        ety = bare(obs[q]["ret"])
        if probe(ety):
            c = st.x.get(("al", l))
            if c is None:
                raise Odd("it claims to hold %s, but that object is not alive"
                          % ("a value" if kind == "v" else "an error"))
            if l[:len(loc)] == loc:
                live.add(l)
        else:
            c = it.load(l, ety, res[0][0])
    al = {k[1] for k in st.x if isinstance(k, tuple) and k[0] == "al" and k[1][:len(loc)] == loc}
    if al - live:
        raise Odd("a member is alive that the object's state does not account for (it is leaked)")
    return (kind, c, l)


def is_obj(ty):
    t = bare(ty)
    return t.startswith(("fitoria::optional", "fitoria::expected", "fitoria::v0::optional",
                         "fitoria::v0::expected"))


def is_unexp(ty):
    return "unexpected<" in bare(ty)


def refobj(ty):
    """does the object hold its value by reference?"""
    t = bare(ty)
    i = t.index("<")
    d = 0
    for j in range(i + 1, len(t)):
        if t[j] == "<":
            d += 1
        elif t[j] == ">" and d:
            d -= 1
        elif t[j] in ",>" and d == 0:
            return t[i + 1:j].strip().endswith("&")
    return False


# --------------------------------------------------------------------------- the contract

def spec(op, f, pre, isopt, voidval):
    """-> dict(post={param: model}, ret=..., calls=[...], thr=exception or None)
    model: (kind, content, location-or-None); ANY content is unconstrained"""
    post = {k: v for k, v in pre.items()}
    s = pre.get("self")
    val = lambda n="val": pre[n]
    move = lambda n: post.__setitem__(n, (pre[n][0], None if pre[n][1] is None else MOVED, pre[n][2]))
    E = ("n", None, None)
    r = dict(post=post, ret=None, calls=None, thr=None, dead=(), keep=None)

    def args():
        if "il" in pre:
            return Tok("args", Tok("il"), pre["a2"][1])
        move("a2")
        return Tok("args", pre["a1"][1], pre["a2"][1])
    cat = op.rsplit("_", 1)[-1]
    err_or_val = lambda: "v"
    if op in ("default", "nullopt"):
        r["ret"] = E
    elif op in ("value", "inplace") and "val" not in pre:
        r["ret"] = ("v", None, None)
    elif op in ("copy", "move", "conv_copy", "conv_move"):
        r["ret"] = pre["other"]
        if op.endswith("move"):
            move("other")
    elif op in ("inplace_copy", "value_copy", "make"):
        r["ret"] = ("v", pre["val"][1], None)
    elif op in ("inplace_move", "value_move", "make_move"):
        r["ret"] = ("v", pre["val"][1], None)
        move("val")
    elif op == "make_args":
        r["ret"] = ("v", pre["val"][1], None)
    elif op in ("inplace_args", "inplace_il", "make_args2", "make_il"):
        r["ret"] = ("v", args(), None)
    elif op in ("unexpect_args", "unexpect_il"):
        r["ret"] = ("e", args(), None)
    elif op in ("unexp_copy", "unexp_conv_copy", "unexp_move", "unexp_conv_move"):
        r["ret"] = ("e", pre["u"][1], None)
        if op.endswith("move"):
            move("u")
    elif op in ("unexpect_copy", "unexpect_move"):
        r["ret"] = ("e", pre["err"][1], None)
        if op.endswith("move"):
            move("err")
    elif op in ("value_bind", "inplace_bind"):
        r["ret"] = ("v", pre["val"][1], pre["val"][2])
    elif op in ("conv_bind", "own_bind"):
        r["ret"] = pre["other"]
    elif op == "dtor":
        r["dead"] = ("self",)
    elif op.startswith("assign_") or op.startswith("emplace") or op == "reset":
        o = op[7:] if op.startswith("assign_") else op
        if o in ("nullopt", "reset"):
            post["self"] = E
        elif o in ("copy", "move", "conv_copy", "conv_move", "conv_bind"):
            post["self"] = pre["other"]
            if o.endswith("move"):
                move("other")
        elif o == "self":
            pass
        elif o in ("val_copy", "val_move", "conv_val_copy", "conv_val_move", "emplace_copy",
                   "emplace_move"):
            post["self"] = ("v", pre["val"][1], None)
            if o.endswith("move"):
                move("val")
        elif o in ("emplace_args", "emplace_il"):
            post["self"] = ("v", args(), None)
        elif o == "emplace":
            post["self"] = ("v", None, None)
        elif o in ("bind", "emplace_bind"):
            post["self"] = ("v", pre["val"][1], pre["val"][2])
        elif o.startswith("unexp"):
            post["self"] = ("e", pre["u"][1], None)
            if o.endswith("move"):
                move("u")
        else:
            raise AnalysisError("no contract for " + op)
        if op.startswith("assign_"):
            r["ret"] = "self"
        elif op.startswith("emplace") and f["ret"] != "void":
            r["ret"] = "self.val"
        r["keep"] = "empty" if op.startswith("emplace") else "kind"
    elif op in ("has", "bool"):
        r["ret"] = s[0] == "v"
    elif op.startswith("star") or op in ("arrow", "carrow"):
        if s[0] != "v":
            return None
        r["ret"] = "self.ptr" if "arrow" in op else "self.val"
    elif op.startswith("value_or") or op.startswith("error_or"):
        want, alt = ("v", "val") if op.startswith("value") else ("e", "err")
        mv = op.endswith("move")
        if s[0] == want:
            r["ret"] = ("c", s[1])
            if mv and not op.endswith("cmove"):
                move("self")
        else:
            r["ret"] = ("c", pre[alt][1])
            if mv:
                move(alt)
    elif op.startswith("value_"):
        if s[0] == "v":
            r["ret"] = "self.val" if f["ret"] != "void" else None
        else:
            r["thr"] = "bad_optional_access" if isopt else "bad_expected_access"
            if cat in ("r", "cr"):
                post["self"] = (s[0], ANY if cat == "r" else s[1], None)
    elif op.startswith("error_"):
        if s is not None and s[0] != "e":
            return None
        r["ret"] = "self.val"
    elif op in ("swap", "fswap"):
        post["self"], post["rhs"] = pre["rhs"], pre["self"]
        r["keep"] = "kind"
    elif op.startswith(("and_then", "transform_error", "transform", "or_else")):
        onval = op.startswith(("and_then", "transform")) and not op.startswith("transform_error")
        hit = (s[0] == "v") == onval
        wrap = op.startswith("transform")
        c = cat
        if onval and f["ref"]:
            c = "l"
        if hit:
            hasarg = any(p["n"] == "f" and "vp::fun<" in p["t"] for p in f["params"])
            r["calls"] = [(c, s[1]) if hasarg else ()]
            if wrap:
                r["ret"] = ("v" if onval else "e", None if voidval and onval and isopt else Tok("fr"), None)
            else:
                r["ret"] = "fret"
        else:
            r["calls"] = []
            r["ret"] = s
        if cat == "r":
            post["self"] = (s[0], (ANY if hit else MOVED) if s[1] is not None else None, s[2])
            if f["ref"] and s[0] == "v":
                post["self"] = s
    else:
        raise AnalysisError("no contract for " + op)
    if r["calls"] is None:
        r["calls"] = []
    return r


def same(m, want, byref, st):
    """observed model m satisfies the wanted one"""
    if m[0] != want[0]:
        return False
    ghost = m[2] is not None and ("al", m[2]) in st.x
    if want[1] == MOVED and (not ghost or (byref and m[0] == "v")):
        pass                        # scalars and referents are not consumed by a move
    elif want[1] is not None and want[1] != ANY and m[1] != want[1]:
        return False
    if byref and want[0] == "v" and want[2] is not None and m[2] != want[2]:
        return False
    return True


def show(m):
    n = {"n": "empty", "v": "engaged", "e": "error"}[m[0]]
    return n if m[1] is None else "%s(%s)" % (n, "?" if m[1] == ANY else m[1])


# --------------------------------------------------------------------------- driver

def setup(prog):
    mk, obs = {}, {}
    for f in prog.fns.values():
        if f["sqn"].startswith("vp::obs_") and f.get("body"):
            if f["n"].startswith("mk_"):
                mk.setdefault(unq(f["ret"]), []).append(f)
            else:
                obs.setdefault(bare(f["params"][0]["t"]), {})[f["n"]] = f
    return mk, obs


def fresh(prog, rep, mk, obs):
    it = V(prog, rep)
    it.mk_by_ret, it.obs = mk, obs
    it.scalars_of = {}
    return it


def target_fn(prog, f, want):
    """the library function an operation exercises, for the report"""
    best = None
    for n in walk(f["body"]):
        fn = n.get("fn")
        if fn and prog.fns.get(fn["id"]) and "fitoria" in fn.get("qn", "") :
            g = prog.fns[fn["id"]]
            if g["file"].startswith(facts.INC):
                best = g
                break
    return best


def prestates(it, f, base):
    """product of all states of the object parameters -> [(St, args, pre)]"""
    out = [(base, [], {})]
    for p in f["params"]:
        ty, n = bare(p["t"]), p["n"]
        nxt = []
        for st, args, pre in out:
            loc = (("p", n),)
            if is_obj(ty):
                for kind, m in it.makers(ty):
                    for s2, l in it.build(ty, kind, m, st, n):
                        Interp.copy_obj(it, l, loc, s2)
                        it.move_ghosts(l, loc, s2)
                        it.clear(l, s2)
                        it.lty[loc] = unq(ty)
                        mod = observe(it, ty, loc, s2)
                        if mod[0] != kind[0]:
                            raise Odd("a freshly made %s object reports the opposite" % kind)
                        d = dict(pre)
                        d[n] = mod
                        nxt.append((s2, args + [Ref(loc)], d))
            elif is_unexp(ty):
                m = it.mk_by_ret[unq(ty)][0]
                for s2, l in it.build(ty, "u", m, st, n):
                    Interp.copy_obj(it, l, loc, s2)
                    it.move_ghosts(l, loc, s2)
                    it.clear(l, s2)
                    it.lty[loc] = unq(ty)
                    d = dict(pre)
                    d[n] = ("u", it.scalars_of.get(n, Tok(n)), None)
                    nxt.append((s2, args + [Ref(loc)], d))
            else:
                s2 = st.copy()
                it.lty[loc] = ty
                if probe(ty):
                    s2.x[("al", loc)] = Tok(n)
                elif ty.startswith("std::initializer_list"):
                    nxt.append((s2, args + [Tok("il")], dict(pre, il=("x", Tok("il"), None))))
                    continue
                elif not ty.startswith("vp::"):
                    s2.mem[loc] = it.scalars_of.get(n, Tok(n))
                d = dict(pre)
                if not ty.startswith("vp::fun"):
                    d[n] = ("x", it.scalars_of.get(n, Tok(n)), loc)
                nxt.append((s2, args + [Ref(loc)], d))
        out = nxt
    return out


def check_op(rep, prog, f, mk, obs):
    it = fresh(prog, rep, mk, obs)
    op = f["n"][3:]
    cls = f["rec"].replace("vp::", "")
    tf = target_fn(prog, f, op)
    where = (report_site(tf) if tf else "core")
    owner = [p["t"] for p in f["params"] if p["n"] == "self"] or [f["ret"]]
    isopt = "optional<" in owner[0].split("<")[0] + "<"
    f["ref"] = is_obj(owner[0]) and refobj(owner[0])
    voidval = "<void" in owner[0]
    n = 0

    def bad(pre, msg):
        d = ", ".join("%s %s" % (k, {"n": "empty", "v": "engaged", "e": "error"}[v[0]])
                      for k, v in sorted(pre.items()) if v[0] in "nve")
        rep.violation("%s.%s[%s] %s" % (cls, op, d, msg), tf or f, (tf or f)["l"],
                      "%s from state [%s]: %s" % (op, d, msg))
    try:
        pres = prestates(it, f, St())
    except Odd as x:
        bad({}, "operand construction: %s" % x)
        return 0
    for st, args, pre in pres:
        sp = spec(op, f, pre, isopt, voidval)
        if sp is None:
            continue
        n += 1
        it.bad = []
        st.x["calls"] = ()
        res, thr = it.run(f, args, st.copy())
        for g, l, m in it.bad:
            bad(pre, m)
        it.bad = []
        want_thr = sp["thr"]
        if want_thr and res:
            bad(pre, "returns normally although nothing is held (should throw %s)" % want_thr)
        if not want_thr and not res:
            bad(pre, "never returns normally")
        for s, v in (res if not want_thr else []):
            try:
                check_post(it, f, op, args, pre, sp, s, v, bad)
            except Odd as x:
                bad(pre, "afterwards %s" % x)
        saw = False
        for s, x in thr:
            if want_thr and x.ty and want_thr in x.ty:
                saw = True
                post = sp["post"]
                if want_thr == "bad_expected_access" and \
                        pre["self"][1] not in getattr(x, "content", []):
                    bad(pre, "the exception does not carry the error (%s)"
                        % getattr(x, "content", None))
            elif x.ty == "vp::boom":
                post = {}
                for k, m in pre.items():
                    mv = sp["post"].get(k) != m
                    if k == "self" and op.startswith("emplace") and isopt:
                        post[k] = None
                    elif k == "self" and sp["keep"] and sp["post"]["self"][0] != m[0] and \
                            op not in ("swap", "fswap"):
                        post[k] = m            # kept if the alternative could not be changed
                    elif k in ("self", "rhs") and sp["keep"]:
                        post[k] = (m[0], ANY, m[2])
                    else:
                        post[k] = (m[0], ANY, m[2]) if mv else m
            else:
                bad(pre, "throws %s" % x.ty)
                continue
            try:
                for p, a in zip(f["params"], args):
                    if is_obj(p["t"]):
                        m = observe(it, bare(p["t"]), a.loc, s)
                        w = post.get(p["n"])
                        if w is None:
                            continue
                        if not same(m, w, refobj(p["t"]), s):
                            bad(pre, "after an exception %s is %s, expected %s"
                                % (p["n"], show(m), show(w)))
            except Odd as y:
                bad(pre, "after an exception %s" % y)
        if want_thr and not saw:
            bad(pre, "does not throw %s" % want_thr)
    rep.counts["states"] = rep.counts.get("states", 0) + n
    if tf:
        rep.analysed(tf)
    for i in it.visited:
        g = prog.fns.get(i)
        if g and g["file"].startswith(facts.INC):
            rep.analysed(g)
    return n


def report_site(f):
    return "%s:%d" % (rel(f["file"]), f["l"])


def check_post(it, f, op, args, pre, sp, s, v, bad):
    locs = {p["n"]: a.loc for p, a in zip(f["params"], args) if isinstance(a, Ref)}
    tys = {p["n"]: bare(p["t"]) for p in f["params"]}
    obs = {}
    for n, ty in tys.items():
        if n in sp["dead"]:
            left = [k for k in s.x if isinstance(k, tuple) and k[0] == "al"
                    and k[1][:1] == locs[n]]
            if left:
                bad(pre, "destruction leaves a live member behind")
            continue
        if is_obj(ty):
            m = obs[n] = observe(it, ty, locs[n], s)
            w = sp["post"][n]
            if not same(m, w, refobj(ty), s):
                bad(pre, "leaves %s %s, expected %s" % (n, show(m), show(w)))
        elif is_unexp(ty):
            it.bad = []
            res, thr = it.run(it.obs[unq(ty)]["q_u"], [Ref(locs[n])], s.copy())
            l = res[0][1].loc
            c = s.x.get(("al", l)) if probe(it.obs[unq(ty)]["q_u"]["ret"].rstrip("& ")) else \
                it.load(l, "int", res[0][0])
            w = sp["post"][n]
            if c is None or (w[1] != ANY and c != w[1] and
                             not (w[1] == MOVED and ("al", l) not in s.x)):
                bad(pre, "leaves the unexpected operand %s" % ("dead" if c is None else "changed"))
        elif probe(ty):
            c = s.x.get(("al", locs[n]))
            w = sp["post"].get(n)
            if c is None:
                bad(pre, "leaves argument %s destroyed" % n)
            elif w and w[1] == MOVED and c != MOVED:
                bad(pre, "copies argument %s instead of moving it" % n)
            elif w and w[1] != ANY and c != w[1]:
                bad(pre, "changes argument %s, which it may only read" % n)
    calls = [c for c in s.x.get("calls", ())]
    if len(calls) != len(sp["calls"]):
        bad(pre, "calls the callable %d times, expected %d" % (len(calls), len(sp["calls"])))
    else:
        for c, w in zip(calls, sp["calls"]):
            if c != w:
                bad(pre, "calls the callable with %s, expected %s" % (c, w))
    r = sp["ret"]
    if r is None:
        return
    if r == "self":
        if not (isinstance(v, Ref) and v.loc == locs["self"]):
            bad(pre, "does not return the object itself")
    elif r in ("self.val", "self.ptr"):
        l = obs["self"][2] if "self" in obs else None
        if l is None and "u" in locs:
            res, thr = it.run(it.obs[unq(tys["u"])]["q_u"], [Ref(locs["u"])], s.copy())
            l = res[0][1].loc
        got = v.loc if isinstance(v, Ref) and r == "self.val" else \
            v.loc if isinstance(v, Ptr) and r == "self.ptr" else None
        if got is None or got != l:
            bad(pre, "does not refer to the contained object")
    elif isinstance(r, bool):
        if v != (TRUE if r else FALSE):
            bad(pre, "answers %s, expected %s" % (v, r))
    elif r == "fret":
        if not isinstance(v, Ref):
            raise AnalysisError("unexpected return value")
        m = observe(it, f["ret"], v.loc, s)
        k = s.x.get("fret")
        if m[0] != k or (m[1] is not None and m[1] != Tok("fr")):
            bad(pre, "returns %s, not what the callable returned" % show(m))
    elif r[0] == "c":
        c = s.x.get(("al", v.loc)) if isinstance(v, Ref) else v
        if c != r[1]:
            bad(pre, "returns %s, expected %s" % (c, r[1]))
    elif is_unexp(f["ret"]):
        res, thr = it.run(it.obs[unq(f["ret"])]["q_u"], [v], s.copy())
        c = s.x.get(("al", res[0][1].loc))
        if c != r[1]:
            bad(pre, "holds %s, expected %s" % (c, r[1]))
    else:
        if not isinstance(v, Ref):
            raise AnalysisError("unexpected return value")
        m = observe(it, f["ret"], v.loc, s)
        w = r
        if not same(m, w, refobj(f["ret"]), s):
            bad(pre, "returns %s, expected %s" % (show(m), show(w)))


# ---- comparisons

ORD = {"eq": lambda c: c == 0, "ne": lambda c: c != 0, "lt": lambda c: c < 0,
       "le": lambda c: c <= 0, "gt": lambda c: c > 0, "ge": lambda c: c >= 0, "tw": lambda c: c}


def check_cmp(rep, prog, f, mk, obs):
    _, opn, shape = f["n"].split("_")
    tf = target_fn(prog, f, opn)
    cls = f["rec"].replace("vp::", "")
    k = 0
    for a, b in ((1, 2), (2, 2), (3, 2)):
        it = fresh(prog, rep, mk, obs)
        it.scalars_of = {"self": Lin(a), "rhs": Lin(b), "u": Lin(b)}
        try:
            pres = prestates(it, f, St())
        except Odd as x:
            rep.violation("%s.%s operand" % (cls, f["n"]), tf or f, (tf or f)["l"], str(x))
            return 0
        for st, args, pre in pres:
            def val(n):
                m = pre.get(n)
                if m is None:
                    return (0, 0)
                if m[0] in ("v", "x"):
                    return (1, m[1].c if isinstance(m[1], Lin) else 0)
                if m[0] in ("e", "u"):
                    return (2, m[1].c)
                return (0, 0)
            x, y = val("self"), val("rhs" if "rhs" in pre else "u")
            want = ORD[opn]((x > y) - (x < y))
            it.bad = []
            k += 1
            d = "%s vs %s" % (x, y)
            res, thr = it.run(f, args, st.copy())
            for g, l, m in it.bad:
                rep.violation("%s.%s[%s] %s" % (cls, f["n"], ["empty", "value", "error"][x[0]] + "/" +
                              ["empty", "value", "error"][y[0]], m), tf or f, (tf or f)["l"],
                              "comparison %s %s: %s" % (opn, shape, m))
            for s, v in res:
                got = None
                if isinstance(v, Bo) and v.k == "c":
                    got = v == TRUE
                elif isinstance(v, Lin) and v.const:
                    got = v.c
                if opn == "tw":
                    if isinstance(v, Ref):
                        v = s.mem.get(v.loc)
                        got = v.c if isinstance(v, Lin) else None
                if got is None:
                    raise AnalysisError("undetermined comparison result %r in %s" % (v, f["qn"]))
                if got != want:
                    rep.violation("%s.%s[%s]" % (cls, f["n"], d), tf or f, (tf or f)["l"],
                                  "operator %s (%s) gives %s for (engaged,value) %s, expected %s"
                                  % (opn, shape, got, d, want))
            if not res and not it.bad:
                rep.violation("%s.%s[%s] none" % (cls, f["n"], d), tf or f, (tf or f)["l"],
                              "comparison never returns")
    rep.counts["states"] = rep.counts.get("states", 0) + k
    for g in [tf]:
        if g:
            rep.analysed(g)
    return k


def check_wit(rep, prog, f, mk, obs):
    """type-level witnesses: the fact holds in the type-checked program"""
    res, thr = fresh(prog, rep, mk, obs).run(f, [], St())
    v = res[0][1] if len(res) == 1 and not thr else None
    c = v.p if isinstance(v, Bo) and v.k == "c" else None
    if c not in (True, False):
        raise AnalysisError("witness %s did not evaluate (%r)" % (f["qn"], v))
    rep.counts["witnesses"] = rep.counts.get("witnesses", 0) + 1
    if not c:
        cls = f["rec"].replace("vp::", "")
        own = "optional" if "optional<" in cls else "expected"
        rep.violation("%s.%s" % (cls, f["n"]), "core/%s.hpp" % own, 0,
                      "%s: %s is missing or byte-wise although an element needs its own copy, move "
                      "or destruction" % (cls, f["n"][4:].replace("_", " ")))


def main_for(pid, pick, least):
    def main(rep):
        prog = facts.load("vocab")
        mk, obs = setup(prog)
        ops = [f for f in prog.fns.values() if f["sqn"].startswith("vp::") and f.get("body")
               and f["n"].startswith(("op_", "cmp_", "wit_")) and pick(f)]
        rep.require("operations", len(ops), least)
        rep.counts = {}

        def job(r, ids):
            for i in ids:
                f = prog.fns[i]
                (check_cmp if f["n"].startswith("cmp_") else check_wit if f["n"].startswith("wit_")
                 else check_op)(r, prog, f, mk, obs)
        ids = sorted(f["id"] for f in ops)
        report.parallel(rep, job, [(i,) for i in ids])
        rep.require("operation x state obligations", rep.counts.get("states", 0), least)
        rep.items += sorted({"%s %s" % (f["rec"].replace("vp::", ""), f["n"]) for f in ops})[:40]
    return main


RULE = ("from every engagement state each operation leaves exactly the member alive that the flag "
        "announces, with the right content provenance, calls callables exactly when specified, and "
        "keeps this through exceptions of the element type")

if __name__ == "__main__":
    which = sys.argv[1]
    if which == "opt":
        report.run("C03", "abstract interpretation: liveness typestate x value provenance", RULE,
                   main_for("C03", lambda f: "vp::opt_" in f["sqn"] or
                            "vp::wit<fitoria::optional<" in f["qn"], 150))
    else:
        report.run("C04", "abstract interpretation: liveness typestate x value provenance", RULE,
                   main_for("C04", lambda f: "vp::exp_" in f["sqn"] or "vp::unexp" in f["sqn"] or
                            "vp::wit<fitoria::expected<" in f["qn"], 300))
