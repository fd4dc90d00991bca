"""C14: the storage of shared states."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from keyed import Keyed, opt_of  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from strs import flush  # noqa: E402

CLS = "web::state_storage"
PLACE = (("ext", "self"),)
MAPS_DEEP = 3


class States(Keyed):
    """A storage is a list of owning pointers to maps; each map holds (or not) a value for the one type K asked for."""
    made = 0

    def seq(self, st, l):
        t = st.mem.get(l)
        return t.k[1] if isinstance(t, Tok) and t.k[:1] == ("seq",) else None

    def slot(self, l, i):
        return l + (("slot", i),)

    def fill(self, s, l, items):
        self.clear(l, s)
        s.mem[l] = Tok("seq", len(items))
        self.lty[l] = "std::vector<std::shared_ptr<m>>"
        for i, p in enumerate(items):
            s.mem[self.slot(l, i)] = p
        return s

    def items(self, s, l):
        return [s.mem[self.slot(l, i)] for i in range(self.seq(s, l))]

    def ptr(self, v, st):
        while isinstance(v, Ref):
            w = st.mem.get(v.loc)
            if w is None:
                return None
            v = w
        return v if isinstance(v, Ptr) else None

    def is_key(self, v, st):
        return self.type_of(v, st) == self.name

    def type_of(self, v, st):
        while isinstance(v, Ref) and v.loc in st.mem:
            v = st.mem[v.loc]
        if isinstance(v, Ref) and v.loc + (("ti",),) in st.mem:
            v = st.mem[v.loc + (("ti",),)]
        return v

    def put_entry(self, st, m, i, args, atys, e):
        s = st.copy()
        rest, n = self.state(s, m)
        s.mem[m] = Tok("kmap", rest, n + 1)
        s.mem[self.kv(m, i)] = self.held(args[0], s) if args else Tok("any", None)
        return [s]

    def held(self, v, s):
        while isinstance(v, Ref):
            w = s.mem.get(v.loc)
            if w is None:
                raise AnalysisError("an object of unknown contents")
            v = w
        return v

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        b = self.base(ty)
        if b in ("std::any", "std::type_index") and len(args) == 1:
            s = st.copy()
            s.mem[loc] = self.type_of(args[0], s)
            return [s]
        return Keyed.make(self, ty, loc, args, atys, st, e, rvalue)

    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n"), fn.get("qn", ""), sq(unq(fn.get("rec", "")))
        if n == "type_index" and this is not None and len(args) == 1 or n == "any" and rec == "std::any" and len(args) == 1:
            s = st.copy()
            s.mem[this] = self.type_of(args[0], s)
            return [(s, Ref(this))]
        if rec == "std::any" and this is not None:
            if n == "operator=":
                s = st.copy()
                s.mem[this] = self.held(args[0], s)
                return [(s, Ref(this))]
            if n == "has_value":
                return [(st, FALSE if self.held(Ref(this), st) == Tok("any", None) else TRUE)]
            if n == "any" and not args:
                s = st.copy()
                s.mem[this] = Tok("any", None)
                return [(s, Ref(this))]
            if n.startswith("~"):
                return [(st, VOID)]
            if n == "type":
                h = self.held(Ref(this), st)
                return [(st, h.k[1])] if h.k[1] is not None else []
        if n == "any_cast" and len(args) == 1:
            T = unq(e.get("t", ""))
            byptr = isinstance(args[0], Ptr) or T.endswith("*")
            l = args[0].loc
            h = st.mem.get(l)
            if not (isinstance(h, Tok) and h.k[:1] == ("any",)):
                raise AnalysisError("any_cast of something unknown")
            T = T.rstrip("*& ").replace("const ", "")
            if h.k[1] == Tok("typeid", T):
                r = l + (("held",),)
                return [(st, Ptr(r) if byptr else Ref(r))]
            if byptr:
                return [(st, Ptr(None))]
            self.throw(st.copy(), Exc("std::bad_any_cast", e))
            return []
        # owning pointers
        if n == "make_shared":
            self.made += 1
            l = (("made", self.made),)
            s = st.copy()
            self.lty[l] = "std::unordered_map<k, v>"
            if not args:
                s.mem[l] = Tok("kmap", "none", 0)
            elif isinstance(args[0], Ref) and self.known(st, args[0].loc):
                self.copy_obj(args[0].loc, l, s)
            else:
                raise AnalysisError("a map made of something unknown")
            return [(s, Ptr(l))]
        if "shared_ptr" in rec and this is not None:
            if n == "shared_ptr":
                s = st.copy()
                if not args or isinstance(args[0], Ptr) and args[0].loc is None:
                    s.mem[this] = Ptr(None)
                elif len(args) == 1 and self.ptr(args[0], s) is not None:
                    s.mem[this] = self.ptr(args[0], s)
                    self.moved(s, args[0], e)
                else:
                    raise AnalysisError("an owning pointer made of something unknown")
                return [(s, Ref(this))]
            p = self.ptr(Ref(this), st)
            if n.startswith("~"):
                return [(st, VOID)]
            if n == "operator=":
                s = st.copy()
                p = self.ptr(args[0], s)
                if p is None:
                    raise AnalysisError("an owning pointer of something unknown")
                s.mem[this] = p
                return [(s, Ref(this))]
            if p is None:
                raise AnalysisError("an owning pointer of unknown value")
            if n in ("operator->", "operator*", "get"):
                if p.loc is None and n != "get":
                    self.complain(e, "reads through a null pointer")
                    return []
                return [(st, p if n != "operator*" else Ref(p.loc))]
            if n == "operator bool":
                return [(st, TRUE if p.loc is not None else FALSE)]
            if n == "reset" and not args:
                s = st.copy()
                s.mem[this] = Ptr(None)
                return [(s, VOID)]
            if n == "use_count":
                return [(st, sym(self.fresh("owners", "long")))]
        # the list of them
        k = self.seq(st, this) if this is not None else None
        if rec == "std::vector" or k is not None:
            r = self.seq_op(n, k, fn, st, this, args, e)
            if r is not None:
                return r
        its = [st.mem.get(a.loc) if isinstance(a, Ref) else a for a in ([Ref(this)] if this is not None else []) + list(args)]
        its = [a for a in its if isinstance(a, Tok) and a.k[:1] in (("sit",), ("rsit",))]
        if its:
            r = self.sit_op(n, its, fn, st, this, args, e)
            if r is not None:
                return r
        return Keyed.hook_call(self, fn, st, this, args, e)

    def moved(self, s, v, e):
        """the source of a move construction is empty afterwards"""
        if isinstance(v, Ref) and e and e.get("args") and e["args"][0] and e["args"][0].get("lv") == 2:
            s.mem[v.loc] = Ptr(None)

    def seq_op(self, n, k, fn, st, this, args, e):
        if n == "vector":
            s = st.copy()
            a = [x for i, x in enumerate(args) if "allocator" not in self.argty(e, i)]
            if not a:
                return [(self.fill(s, this, []), Ref(this))]
            if len(a) == 1 and isinstance(a[0], Ref) and self.seq(s, a[0].loc) is not None:
                return [(self.fill(s, this, self.items(s, a[0].loc)), Ref(this))]
            raise AnalysisError("a list of maps made of something unknown")
        if n.startswith("~"):
            return [(st, VOID)]
        if k is None:
            raise AnalysisError("a list of maps of unknown contents")
        if n in ("size", "empty") and not args:
            return [(st, Lin(k) if n == "size" else FALSE if k else TRUE)]
        if n in ("reserve", "shrink_to_fit"):
            return [(st, VOID)]
        if n in ("begin", "end", "cbegin", "cend") and not args:
            return [(st, Tok("sit", this, k if n.endswith("end") else 0))]
        if n in ("rbegin", "rend", "crbegin", "crend") and not args:
            return [(st, Tok("rsit", this, k if n.endswith("begin") else 0))]
        if n in ("front", "back", "operator[]", "at"):
            i = 0 if n == "front" else k - 1 if n == "back" else None
            if i is None:
                p = self.pos(args[0], st)
                if not p.const:
                    raise AnalysisError("a map at an unknown place")
                i = p.c
            if not 0 <= i < k:
                if n == "at":
                    self.throw(st.copy(), Exc("std::out_of_range", e))
                else:
                    self.complain(e, "reads a map that is not there")
                return []
            return [(st, Ref(self.slot(this, i)))]
        s = st.copy()
        items = self.items(s, this)
        if n in ("push_back", "emplace_back") and len(args) == 1:
            p = self.ptr(args[0], s)
            if p is None:
                raise AnalysisError("an unknown map")
            self.moved(s, args[0], e)
            self.fill(s, this, items + [p])
            return [(s, Ref(self.slot(this, k)) if n == "emplace_back" else VOID)]
        if n in ("insert", "emplace") and len(args) == 2:
            t, p = self.it_of(args[0], s), self.ptr(args[1], s)
            if t is None or t.k[1] != this or p is None:
                raise AnalysisError("an unknown map or place")
            self.fill(s, this, items[:t.k[2]] + [p] + items[t.k[2]:])
            return [(s, t)]
        if n == "insert" and len(args) == 3:
            t, a, b = [self.it_of(x, s) for x in args]
            if t is None or a is None or b is None or t.k[1] != this or a.k[1] != b.k[1]:
                raise AnalysisError("an unknown range or place")
            self.fill(s, this, items[:t.k[2]] + self.items(s, a.k[1])[a.k[2]:b.k[2]] + items[t.k[2]:])
            return [(s, t)]
        if n == "pop_back":
            if not k:
                self.complain(e, "removes a map that is not there")
                return []
            self.fill(s, this, items[:-1])
            return [(s, VOID)]
        if n == "clear":
            return [(self.fill(s, this, []), VOID)]
        if n == "operator=":
            if isinstance(args[0], Ref) and self.seq(s, args[0].loc) is not None:
                return [(self.fill(s, this, self.items(s, args[0].loc)), Ref(this))]
        if n == "erase" and len(args) == 1:
            t = self.it_of(args[0], s)
            if t is not None and t.k[2] < k:
                self.fill(s, this, items[:t.k[2]] + items[t.k[2] + 1:])
                return [(s, t)]
        if n == "resize" and self.pos(args[0], s).const:
            c = self.pos(args[0], s).c
            self.fill(s, this, (items + [Ptr(None)] * c)[:c])
            return [(s, VOID)]
        raise AnalysisError("%s() on a list of maps" % n)

    def it_of(self, v, s):
        t = s.mem.get(v.loc) if isinstance(v, Ref) else v
        return t if isinstance(t, Tok) and t.k[:1] == ("sit",) else None

    def sit_op(self, n, its, fn, st, this, args, e):
        i = its[0]
        rev = i.k[0] == "rsit"
        if n in ("operator==", "operator!=") and len(its) == 2:
            eq = its[0].k[2] == its[1].k[2]
            return [(st, TRUE if eq == (n == "operator==") else FALSE)]
        if n in ("operator++", "operator--") and this is not None:
            s = st.copy()
            w = Tok(i.k[0], i.k[1], i.k[2] + (1 if (n == "operator++") != rev else -1))
            s.mem[this] = w
            return [(s, i if args else Ref(this))]
        if n in ("operator*", "operator->") and len(its) == 1:
            at = i.k[2] - rev
            if not 0 <= at < (self.seq(st, i.k[1]) or 0):
                self.complain(e, "reads a map that is not there")
                return []
            l = self.slot(i.k[1], at)
            return [(st, Ref(l) if n == "operator*" else Ptr(l))]
        if n in ("operator+", "operator-") and len(args) == 1 and len(its) == 1:
            d = self.pos(args[0], st)
            if d.const:
                return [(st, Tok(i.k[0], i.k[1], i.k[2] + (d.c if (n == "operator+") != rev else -d.c)))]
        if "iterator" in (n or "") and this is not None and len(args) == 1:
            s = st.copy()
            s.mem[this] = i
            return [(s, Ref(this))]
        return None

    def other_range(self, n, rl, st):
        k = self.seq(st, rl)
        if k is None:
            return Keyed.other_range(self, n, rl, st)
        out, cur = Out(), [st]
        vloc = (("v", self.frames[-1].fid, n["var"]["id"]),)
        for i in range(k):
            nxt = []
            for s in cur:
                s = s.copy()
                self.lty[vloc] = unq(n["var"]["t"])
                s.mem[vloc] = Ref(self.slot(rl, i)) if is_ref(n["var"]["t"]) else s.mem[self.slot(rl, i)]
                o = self.ex(n["body"], s)
                nxt += o.n + o.c
                out.n += o.b
            cur = nxt
        out.n += cur
        return out


from absint import Out  # noqa: E402


def begin(prog, rep, f, shape):
    """a storage of len(shape) maps, the i-th of which holds the type asked for if shape[i]"""
    it = States(prog, rep)
    it.wrong = []
    it.size = sym(("n", "rest"))
    st = St()
    st = it.assume_le(st, -it.size) or st
    it.lty[PLACE] = "fitoria::" + CLS
    flds = prog.rec_by_type["fitoria::" + CLS]["fields"]
    if len(flds) != 1 or sq(unq(flds[0]["t"])) != "std::vector":
        raise facts.AnalysisError("the members of the storage are not the ones known")
    it.vec = PLACE + (("f", flds[0]["n"]),)
    it.ptrs = []
    for i, has in enumerate(shape):
        it.ptrs.append(mapped(it, st, (("map", i),), has, i))
    it.fill(st, it.vec, it.ptrs)
    it.run_setup()
    return it, st


def mapped(it, st, l, has, i):
    it.lty[l] = "std::unordered_map<k, v>"
    st.mem[l] = Tok("kmap", "rest", 1 if has else 0)
    if has:
        st.mem[it.kv(l)] = Tok("any", KEY, i)
    return Ptr(l)


KEY = None


def shapes():
    out = [()]
    for n in range(1, MAPS_DEEP + 1):
        out += [x + (h,) for x in out if len(x) == n - 1 for h in (False, True)]
    return out


def untouched(it, st, s):
    """the maps that existed, and the list of the original"""
    if it.seq(s, it.vec) is None or it.items(s, it.vec) != it.ptrs:
        return "the list of the original storage"
    for k, v in st.mem.items():
        if k[0][0] == "map" and s.mem.get(k) != v:
            return "a map that other storages share"
    return None


def result(it, s, v):
    """the list of the storage returned"""
    l = v.loc if isinstance(v, Ref) else None
    l = l + it.vec[len(PLACE):] if l is not None else None
    if l is None or it.seq(s, l) is None:
        raise facts.AnalysisError("what the call returns is not recognised")
    return it.items(s, l)


def look(rep, prog):
    """state<T>() is the object of the first map that holds one for T"""
    n = 0
    for f in fns(prog, CLS + "::state"):
        T = targs(f["ret"])[0].rstrip("& ")
        global KEY
        KEY = Tok("typeid", T.replace("const ", ""))
        for shape in shapes():
            it, st = begin(prog, rep, f, shape)
            it.name = KEY
            res, thr = it.run(f, [], st, PLACE)
            for e, msg in it.wrong:
                rep.violation("state:name", f, e.get("l"), "state() %s" % msg.replace("name", "type"))
            if it.wrong:
                break
            first = shape.index(True) if True in shape else None
            for s, v in res:
                n += 1
                w = untouched(it, st, s)
                if w:
                    rep.violation("state:const", f, None, "state() changes %s" % w)
                k, r = opt_of(it, s, v)
                if k is None:
                    raise facts.AnalysisError("what state() gives is not recognised")
                if k != ("some" if first is not None else "none"):
                    rep.violation("state:presence", f, None, "state() gives %s when %s" % (
                        "nothing" if k == "none" else "an object", "a map holds one of the type" if first is not None else "no map does"))
                elif first is not None and r.loc != it.kv((("map", first),)) + (("held",),):
                    rep.violation("state:which", f, None, "state() does not give the object of the first map that holds one of the type")
            for s, x in thr:
                n += 1
                rep.violation("state:throw", f, None, "state() throws")
            flush(rep, it, f["sqn"])
        rep.analysed(f)
    rep.obligation("lookups compared", n)


def adds(rep, prog):
    global KEY
    n = 0
    KEY = Tok("typeid", "T")
    for name in ("copy_prepend", "copy_append", "copy_insert_front"):
        for f in fns(prog, CLS + "::" + name):
            for shape in shapes():
                it, st = begin(prog, rep, f, shape)
                it.name = KEY
                args = []
                for i, p in enumerate(f["params"]):
                    l = (("ext", "arg%d" % i),)
                    b = it.base(p["t"])
                    it.lty[l] = unq(p["t"])
                    if b == "std::shared_ptr":
                        added = mapped(it, st, (("map", "new"),), False, "new")
                        st.mem[l] = added
                    elif b == "std::type_index":
                        st.mem[l] = KEY
                    elif b == "std::any":
                        st.mem[l] = Tok("any", KEY, "new")
                    else:
                        raise facts.AnalysisError("a parameter of unknown type")
                    args.append(Ref(l))
                res, thr = it.run(f, args, st, PLACE)
                for e, msg in it.wrong:
                    rep.violation(name + ":name", f, e.get("l"), "%s() %s" % (name, msg.replace("name", "type")))
                if it.wrong:
                    break
                for s, v in res:
                    n += 1
                    w = untouched(it, st, s)
                    if w:
                        rep.violation(name + ":const", f, None, "%s() changes %s" % (name, w))
                        continue
                    ps = result(it, s, v)
                    if name != "copy_insert_front":
                        want = [added] + it.ptrs if name == "copy_prepend" else it.ptrs + [added]
                        if ps != want:
                            rep.violation(name + ":list", f, None, "%s() does not give the maps there were and the new one in their order" % name)
                        continue
                    msg = inserted(it, s, ps, shape)
                    if msg:
                        rep.violation(name + ":list", f, None, "%s() %s" % (name, msg))
                for s, x in thr:
                    n += 1
                    rep.violation(name + ":throw", f, None, "%s() throws" % name)
                flush(rep, it, f["sqn"])
            rep.analysed(f)
    rep.obligation("results compared", n)


def inserted(it, s, ps, shape):
    """the first map that holds the type holds the new object; every other lookup finds what it did"""
    kept = []
    front = None
    for p in ps:
        if p.loc is None:
            return "gives a storage with a null map"
        rest, k = it.state(s, p.loc)
        if p.loc[0][0] == "map":
            kept.append(p)
            origin = p
        elif rest == "rest":
            origin = next((q for q in it.ptrs if q not in kept), None)     # a copy of a map there was
            kept.append(origin)
        else:
            origin = None
        if k and front is None:
            front = s.mem.get(it.kv(p.loc))
    if front != Tok("any", KEY, "new"):
        return "does not make the object the one found for its type"
    if kept != it.ptrs:
        return "loses or reorders the maps there were"


PARTS = {"look": look, "adds": adds}


def main(rep):
    prog = facts.load("core")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("results", sum(n for k, n in rep.obl if "compared" in k), 30)


if __name__ == "__main__":
    report.run("C14", "abstract interpretation over concrete lists of shared maps",
               "a lookup gives the first map's object; deriving a storage changes no other one", main)
