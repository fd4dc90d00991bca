"""C17: buffers, readers and writers of byte streams."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
from absint import Out  # noqa: E402
from log import One  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from strs import flush  # noqa: E402

GH = (("ghost",),)
SELF = (("ext", "self"),)
CHUNKS = 3
HUGE = 2 ** 40
TOP = 2 ** 64
EC = ("std::error_code", "boost::system::error_code")
BUFS = ("boost::asio::const_buffer", "boost::asio::mutable_buffer", "boost::asio::const_buffers_1",
        "boost::asio::mutable_buffers_1", "std::span")
CAP = "std::vector<std::byte, std::allocator<std::byte>>"


class Bytes(One):
    """A container of bytes is a sequence of pieces of known origin; a buffer is a place in one and a size."""
    most = 12

    def __init__(self, prog, rep=None):
        One.__init__(self, prog, rep)
        self.mine = set()       # numbers with a meaning
        self.reads = 0

    # ------------------------------------------------------------ numbers
    def num(self, tag, st, lo=0, hi=HUGE):
        s = self.fresh(tag, "unsigned long")
        self.mine.add(s)
        x = sym(s)
        for l in (x - hi, Lin(lo) - x):
            st2 = self.assume_le(st, l)
            if st2 is not None and st2 is not st:
                st.cons = st2.cons
        return x

    def fit(self, node, op, l, ty, st):
        if unq(ty) in ("unsigned long", "std::size_t", "unsigned long long") and not l.const:
            if self.entails(st, Lin(TOP) - l) and self.entails(st, l - (2 * TOP - 1)):
                return l - TOP
            if self.entails(st, l + 1) and self.entails(st, -l - TOP):
                return l + TOP
        return One.fit(self, node, op, l, ty, st)

    def icast(self, v, fty, ty, st, e=None):
        if isinstance(v, Lin) and not v.const and self.entails(st, -v) and self.entails(st, v - (2 ** 31 - 1 if unq(ty) in (
                "int", "unsigned int") else 2 ** 62)) and unq(ty) in ("int", "unsigned int", "long", "unsigned long", "long long",
                                                                    "unsigned long long"):
            return v
        return One.icast(self, v, fty, ty, st, e)

    def eq0(self, st, l):
        return self.entails(st, l) and self.entails(st, -l)

    def known_num(self, l):
        return all(s in self.mine for s in l.syms())

    # ------------------------------------------------------------ pieces
    def bytes_of(self, l, st):
        t = st.mem.get(l)
        return t.k[1] if isinstance(t, Tok) and t.k[:1] == ("bytes",) else None

    def total(self, ps):
        n = Lin(0)
        for p in ps:
            n = n + p[2]
        return n

    def cut(self, st, ps, at, e):
        """[(state, pieces before, pieces from at)]"""
        done, acc = [], Lin(0)
        for i, (src, a, n) in enumerate(ps):
            if self.entails(st, at - acc):
                return [(st, tuple(done), tuple(ps[i:]))]
            if self.entails(st, acc + n - at):
                done.append((src, a, n))
                acc = acc + n
                continue
            if self.entails(st, acc - at) and self.entails(st, at - acc - n):
                k = at - acc
                return [(st, tuple(done) + ((src, a, k),), ((src, a + k, n - k),) + tuple(ps[i + 1:]))]
            out = []
            s = self.assume_le(st, at - acc - n)
            if s is not None:
                t = self.assume_le(s, acc - at)
                if t is not None:
                    out += self.cut(t, ps, at, e)
                u = self.assume_le(s, at - acc + 1)
                if u is not None:
                    out += self.cut(u, ps, at, e)
            s = self.assume_le(st, acc + n - at + 1)
            if s is not None:
                out += self.cut(s, ps, at, e)
            return out
        if not self.entails(st, at - acc):
            if self.assume_le(st, acc - at + 1) is not None and self.known_num(at) and self.known_num(acc):
                self.complain(e, "goes beyond the end of the bytes there are")
            st = self.assume_le(st, at - acc)
            return [(st, tuple(done), ())] if st is not None else []
        return [(st, tuple(done), ())]

    def sized(self, st, ps):
        """[(state, pieces of positive size)], adjacent ones joined"""
        out = []
        work = [(st, (), tuple(ps))]
        while work:
            s, done, rest = work.pop()
            if not rest:
                out.append((s, done))
                continue
            src, a, n = rest[0]
            t = self.assume_le(s, n)
            if t is not None:
                work.append((t, done, rest[1:]))
            t = self.assume_le(s, Lin(1) - n)
            if t is not None:
                if done and done[-1][0] == src and src[0] != "junk" and self.eq0(t, done[-1][1] + done[-1][2] - a):
                    work.append((t, done[:-1] + ((src, done[-1][1], done[-1][2] + n),), rest[1:]))
                else:
                    work.append((t, done + ((src, a, n),), rest[1:]))
        return out

    def same(self, st, a, b):
        """the same bytes in the same order?  None if that is not known"""
        for s, x in self.sized(st, a):
            for t, y in self.sized(s, b):
                if len(x) != len(y):
                    return False
                for (p, i, n), (q, j, m) in zip(x, y):
                    if p != q:
                        return False
                    if not self.eq0(t, i - j) or not self.eq0(t, n - m):
                        if not all(self.known_num(l) for l in (i, j, n, m)):
                            return None
                        return False
        return True

    def set(self, s, l, ps):
        t = self.lty.get(l)
        self.clear(l, s)
        s.mem[l] = Tok("bytes", tuple(ps))
        self.lty[l] = t if t and self.base(t) == "std::vector" else CAP
        return s

    def junk(self, n):
        return (("junk", self.fresh("junk")), Lin(0), n)

    def place(self, v, st):
        """(container, offset) of a pointer or a reference to its data"""
        while isinstance(v, Ref) and isinstance(st.mem.get(v.loc), (Ptr, Ref)):
            v = st.mem[v.loc]
        if isinstance(v, Ptr) and v.loc is not None:
            if self.bytes_of(v.loc, st) is not None:
                return v.loc, v.off or Lin(0)
        return None

    def read_at(self, st, v, n, e):
        """[(state, pieces)]: the n bytes at a pointer"""
        if self.eq0(st, n):
            return [(st, ())]
        p = self.place(v, st)
        if p is None:
            if isinstance(v, Tok) and v.k[:1] == ("lent",):
                return [(x, r) for s, _, r0 in self.cut(st, v.k[1], v.k[2], e) for x, r, _ in self.cut(s, r0, n, e)]
            raise AnalysisError("bytes at an unknown place")
        l, off = p
        return [(x, got) for s, _, rest in self.cut(st, self.bytes_of(l, st), off, e)
                for x, got, _ in self.cut(s, rest, n, e)]

    def write_at(self, st, v, ps, e):
        """[states]: the bytes at a pointer overwritten"""
        n = self.total(ps)
        if self.eq0(st, n):
            return [st]
        p = self.place(v, st)
        if p is None:
            raise AnalysisError("bytes written to an unknown place")
        l, off = p
        out = []
        for s, before, rest in self.cut(st, self.bytes_of(l, st), off, e):
            for x, _, after in self.cut(s, rest, n, e):
                out.append(self.set(x.copy(), l, before + tuple(ps) + after))
        return out

    def buf_of(self, v, st):
        """(pointer, size) of a buffer or span"""
        if isinstance(v, Ref):
            v = st.mem.get(v.loc)
        if isinstance(v, Tok) and v.k[:1] == ("buf",):
            return v.k[1], v.k[2]
        return None

    def raw(self, v, st):
        while isinstance(v, Ref):
            w = st.mem.get(v.loc)
            if w is None:
                raise AnalysisError("a pointer of unknown value")
            v = w
        return v

    def n_of(self, v, st):
        v = self.raw(v, st) if isinstance(v, Ref) else v
        if isinstance(v, Lin):
            return v
        raise AnalysisError("a size of unknown value")

    # ------------------------------------------------------------ error codes
    def ec_of(self, v, st):
        """None = no error, or what it is"""
        if isinstance(v, Ref):
            v = st.mem.get(v.loc)
        if isinstance(v, Tok) and v.k[:1] == ("ec",):
            return v.k[1]
        raise AnalysisError("an error code of unknown value")

    def enum_ec(self, v, ty, st):
        if isinstance(v, Ref):
            v = self.load(v.loc, "int", st)
        v = self.as_lin(v)
        if not isinstance(v, Lin) or not v.const:
            raise AnalysisError("an error enumerator of unknown value")
        return Tok("ec", ("enum", sq(unq(ty).rstrip("& ").replace("const ", "")), v.c))

    def as_ec(self, v, ty, st):
        b = self.base(ty)
        if b in EC:
            return Tok("ec", self.ec_of(v, st))
        return self.enum_ec(v, ty, st)

    def make(self, ty, loc, args, atys, st, e, rvalue=()):
        b = self.base(ty)
        if b in EC:
            s = st.copy()
            self.clear(loc, s)
            self.lty[loc] = ty
            if not args:
                s.mem[loc] = Tok("ec", None)
            elif len(args) == 2 and int_type(unq(atys[0]).rstrip("& ")):
                s.mem[loc] = Tok("ec", ("enum", repr(args[1]), self.n_of(args[0], s).c))
            else:
                a = args[0]
                t = st.mem.get(a.loc) if isinstance(a, Ref) else a
                s.mem[loc] = t if isinstance(t, Tok) and t.k[:1] == ("ec",) else self.enum_ec(a, atys[0], s)
            return [s]
        if b == "std::vector" and (not args or isinstance(args[0], Ref) and self.bytes_of(args[0].loc, st) is not None):
            s = st.copy()
            self.lty[loc] = ty
            return [self.set(s, loc, self.bytes_of(args[0].loc, st) if args else ())]
        return One.make(self, ty, loc, args, atys, st, e, rvalue)

    def rvalue(self, e, i):
        a = (e or {}).get("args", [])
        if e and e.get("k") == "CXXOperatorCallExpr":
            a = a[1:]
        return i < len(a) and a[i] and a[i].get("lv") in (2, None)

    # ------------------------------------------------------------ the trace
    def log(self, s, *ev):
        t = s.mem.get(GH)
        s.mem[GH] = Tok("trace", *((t.k[1:] if t else ()) + (ev,)))

    def trace(self, s):
        t = s.mem.get(GH)
        return t.k[1:] if t else ()

    def expected(self, st, ty, v=None, err=None):
        """an expected<..> with a value (given to put) or an error"""
        l = self.tmp(ty)
        if err is not None:
            self.vset(l, st, "none")
            st.mem[l + (("err",),)] = Tok("ec", err)
            self.lty[l + (("err",),)] = (targs(ty) + ["", ""])[1]
        else:
            self.vset(l, st, "some")
            if v is not None:
                st.mem[l + (("val",),)] = v
                self.lty[l + (("val",),)] = targs(ty)[0]
        return l

    def a_type(self, e):
        """T of the awaitable<T> an expression gives"""
        t = unq((e or {}).get("t", ""))
        return targs(t)[0] if t.split("<")[0].endswith("awaitable") else t

    def next_chunk(self, st, e):
        """what a stream underneath yields: the end, an error or a chunk (possibly empty)"""
        tr = [x for x in self.trace(st) if x[0] == "read"]
        ty = self.a_type(e)
        out = []
        if tr and tr[-1][1] in ("end", "error"):
            s = st.copy()
            self.log(s, "read", "again", tr[-1][1])
        k = len(tr)

        def opt(s):
            l = self.tmp(ty)
            return l
        kinds = ["end", "error"] + (["empty", "chunk"] if sum(x[1] in ("chunk", "empty") for x in tr) < self.chunks() else [])
        for kind in self.only or kinds:
            if kind not in kinds:
                continue
            s = st.copy()
            self.log(s, "read", kind, k)
            l = opt(s)
            if kind == "end":
                self.vset(l, s, "none")
            else:
                self.vset(l, s, "some")
                x = l + (("val",),)
                inner = targs(ty)[0]
                self.lty[x] = inner
                if kind == "error":
                    self.vset(x, s, "none")
                    s.mem[x + (("err",),)] = Tok("ec", ("up", k))
                    self.lty[x + (("err",),)] = targs(inner)[1]
                else:
                    self.vset(x, s, "some")
                    self.lty[x + (("val",),)] = targs(inner)[0]
                    if kind == "empty":
                        self.set(s, x + (("val",),), ())
                    else:
                        n = self.num("len", s, 1)
                        t = self.trace(s)
                        s.mem[GH] = Tok("trace", *(t[:-1] + (t[-1] + (n,),)))
                        self.set(s, x + (("val",),), ((("chunk", k), Lin(0), n),))
            out.append((s, Ref(l)))
        return out

    only = None

    def chunks(self):
        return CHUNKS

    # ------------------------------------------------------------ calls
    def hook_call(self, fn, st, this, args, e):
        n, q, rec = fn.get("n") or "", sq(fn.get("qn", "")), sq(unq(fn.get("rec") or ""))
        r = self.byte_call(n, q, rec, fn, st, this, args, e)
        if r is not None:
            return r
        return One.hook_call(self, fn, st, this, args, e)

    def byte_call(self, n, q, rec, fn, st, this, args, e):
        if n == "async_read_some" and (rec == "streams::source" or rec.endswith("any_async_readable_stream::base")):
            self.reads += 1
            return self.next_chunk(st, e)
        if rec in EC and this is not None:
            r = self.ec_op(n, fn, st, this, args, e)
            if r is not None:
                return r
        if n == "make_error_code" and len(args) == 1:
            l = self.tmp(unq(e.get("t", "")))
            s = st.copy()
            s.mem[l] = self.enum_ec(args[0], self.argty(e, 0), s)
            return [(s, Ref(l))]
        if n in ("operator==", "operator!=") and len(args) + (this is not None) == 2:
            a = ([Ref(this)] if this is not None else []) + list(args)
            ty = [self.base(x.get("t", "")) if x else "" for x in e.get("args", [])]
            if any(t in EC for t in ty):
                full = [unq(x.get("t", "")) if x else "" for x in e.get("args", [])]
                x, y = self.as_ec(a[0], full[0], st).k[1], self.as_ec(a[1], full[1], st).k[1]
                return self.same_ec(st, x, y, n == "operator!=")
        if n in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove") and len(args) == 3:
            out = []
            for s, ps in self.read_at(st, self.raw(args[1], st), self.n_of(args[2], st), e):
                if "memcpy" in n:
                    self.overlap(s, args[0], args[1], self.n_of(args[2], s), e)
                out += [(x, args[0]) for x in self.write_at(s, self.raw(args[0], s), ps, e)]
            return out
        if n in ("copy", "copy_n") and rec == "" and len(args) == 3:
            a, b, c = [self.raw(x, st) if isinstance(x, Ref) else x for x in args]
            if n == "copy_n":
                size, dst = b, c
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc == b.loc:
                size, dst = (b.off or Lin(0)) - (a.off or Lin(0)), c
            else:
                return None
            if isinstance(a, Ptr) and isinstance(dst, Ptr) and isinstance(size, Lin):
                out = []
                for s, ps in self.read_at(st, a, size, e):
                    out += [(x, Ptr(dst.loc, (dst.off or Lin(0)) + size)) for x in self.write_at(s, dst, ps, e)]
                return out
        if rec in BUFS and this is not None or n in ("buffer", "as_bytes", "as_writable_bytes", "buffer_size", "buffer_copy"):
            r = self.buf_op(n, rec, fn, st, this, args, e)
            if r is not None:
                return r
        if rec == "std::vector" and this is not None and ("std::byte" in fn.get("rec", "") or "byte" in fn.get("qn", "")):
            r = self.bytes_op(n, fn, st, this, args, e)
            if r is not None:
                return r
        return None

    def overlap(self, s, a, b, n, e):
        x, y = self.place(self.raw(a, s), s), self.place(self.raw(b, s), s)
        if x and y and x[0] == y[0] and not (self.entails(s, x[1] + n - y[1]) or self.entails(s, y[1] + n - x[1])):
            self.complain(e, "copies between overlapping places with memcpy")

    def ec_op(self, n, fn, st, this, args, e):
        if n.startswith("~"):
            return [(st, VOID)]
        if n == "error_code":
            atys = [self.argty(e, i) for i in range(len(args))]
            return [(s, Ref(this)) for s in self.make(fn.get("rec"), this, args, atys, st, e)]
        if n == "operator=":
            s = st.copy()
            s.mem[this] = self.as_ec(args[0], self.argty(e, 0), s)
            return [(s, Ref(this))]
        if n == "clear":
            s = st.copy()
            s.mem[this] = Tok("ec", None)
            return [(s, VOID)]
        v = self.ec_of(Ref(this), st)
        if n in ("operator bool", "failed") or n.startswith("operator bool"):
            return [(st, TRUE if self.is_error(v) else FALSE)]
        if n.startswith("operator") and "error_code" in n + unq(e.get("t", "")):
            l = self.tmp("std::error_code")
            s = st.copy()
            s.mem[l] = Tok("ec", v)
            return [(s, Ref(l))]
        if n == "value":
            return [(st, Lin(0) if v is None else Lin(v[2]) if v[0] == "enum" else sym(self.fresh("code", "int")))]
        return None

    def is_error(self, v):
        return v is not None and not (v[0] == "enum" and v[2] == 0)

    def same_ec(self, st, x, y, flip):
        if x is not None and y is not None and x != y and x[0] != y[0] and False:
            return []
        if x is None or y is None:
            v = not self.is_error(x) and not self.is_error(y)
        else:
            v = x == y
        return [(st, TRUE if v != flip else FALSE)]

    def buf_op(self, n, rec, fn, st, this, args, e):
        if n == "buffer" and args:
            s = st.copy()
            l = self.tmp(unq(e.get("t", "")))
            b = self.buf_of(args[0], s)
            if b is None and isinstance(args[0], Ref) and self.bytes_of(args[0].loc, s) is not None:
                b = (Ptr(args[0].loc, Lin(0)), self.total(self.bytes_of(args[0].loc, s)))
            if b is None and len(args) > 1 and isinstance(self.raw(args[0], s), Ptr):
                b = (self.raw(args[0], s), self.n_of(args[1], s))
                args = args[:1]
            if b is None:
                raise AnalysisError("a buffer of unknown contents")
            out = []
            if len(args) > 1:
                k = self.n_of(args[1], s)
                t, f = self.branch(s, self.cmp_lin("<", k - b[1]))
                for x in t:
                    x = x.copy()
                    x.mem[l] = Tok("buf", b[0], k)
                    out.append((x, Ref(l)))
                sts = f
            else:
                sts = [s]
            for x in sts:
                x = x.copy()
                x.mem[l] = Tok("buf", b[0], b[1])
                out.append((x, Ref(l)))
            return out
        if n in ("as_bytes", "as_writable_bytes"):
            b = self.buf_of(args[0], st)
            if b is None:
                return None
            l = self.tmp(unq(e.get("t", "")))
            s = st.copy()
            s.mem[l] = Tok("buf", *b)
            return [(s, Ref(l))]
        if n == "buffer_size":
            b = self.buf_of(args[0], st)
            return [(st, b[1])] if b else None
        if this is None:
            return None
        if n in ("const_buffer", "mutable_buffer", "const_buffers_1", "mutable_buffers_1", "span"):
            s = st.copy()
            if not args:
                s.mem[this] = Tok("buf", Ptr(None), Lin(0))
            elif len(args) == 1:
                b = self.buf_of(args[0], s)
                if b is None and isinstance(args[0], Ref) and self.bytes_of(args[0].loc, s) is not None:
                    b = (Ptr(args[0].loc, Lin(0)), self.total(self.bytes_of(args[0].loc, s)))
                if b is None:
                    raise AnalysisError("a buffer made of something unknown")
                s.mem[this] = Tok("buf", *b)
            else:
                s.mem[this] = Tok("buf", self.raw(args[0], s), self.n_of(args[1], s))
            return [(s, Ref(this))]
        if n.startswith("~"):
            return [(st, VOID)]
        b = self.buf_of(Ref(this), st)
        if n == "operator=":
            s = st.copy()
            b = self.buf_of(args[0], s)
            s.mem[this] = Tok("buf", *b)
            return [(s, Ref(this))]
        if b is None:
            raise AnalysisError("a buffer of unknown contents")
        if n in ("data", "begin"):
            return [(st, b[0])]
        if n == "end":
            return [(st, Ptr(b[0].loc, (b[0].off or Lin(0)) + b[1]))]
        if n in ("size", "size_bytes"):
            return [(st, b[1])]
        if n == "empty":
            return [(st, Bo("eq", b[1]) if not b[1].const else TRUE if b[1].c == 0 else FALSE)]
        if n in ("first", "last", "subspan"):
            k = self.n_of(args[0], st)
            l = self.tmp(unq(e.get("t", "")))
            s = st.copy()
            at = lambda o: Ptr(b[0].loc, (b[0].off or Lin(0)) + o)
            if n == "first":
                s.mem[l] = Tok("buf", b[0], k)
            elif n == "last":
                s.mem[l] = Tok("buf", at(b[1] - k), k)
            else:
                s.mem[l] = Tok("buf", at(k), self.n_of(args[1], st) if len(args) > 1 and self.n_of(args[1], st) != Lin(TOP - 1)
                               else b[1] - k)
            return [(s, Ref(l))]
        if n == "operator+=":
            k = self.n_of(args[0], st)
            s = st.copy()
            s.mem[this] = Tok("buf", Ptr(b[0].loc, (b[0].off or Lin(0)) + k), b[1] - k)
            return [(s, Ref(this))]
        return None

    def bytes_op(self, n, fn, st, this, args, e):
        ps = self.bytes_of(this, st)
        a = [x for i, x in enumerate(args) if "allocator" not in self.argty(e, i).split("<")[0]]
        if n == "vector":
            s = st.copy()
            if not a:
                return [(self.set(s, this, ()), Ref(this))]
            if isinstance(a[0], Ref) and self.bytes_of(a[0].loc, s) is not None and len(a) == 1:
                src = a[0].loc
                self.set(s, this, self.bytes_of(src, s))
                if self.rvalue(e, 0):
                    self.set(s, src, ())
                return [(s, Ref(this))]
            v = [self.raw(x, s) if isinstance(x, Ref) else x for x in a]
            if len(v) == 2 and isinstance(v[0], Ptr) and isinstance(v[1], Ptr) and v[0].loc == v[1].loc:
                k = (v[1].off or Lin(0)) - (v[0].off or Lin(0))
                return [(self.set(x.copy(), this, got), Ref(this)) for x, got in self.read_at(s, v[0], k, e)]
            if isinstance(v[0], Lin):
                return [(self.set(s, this, (self.junk(v[0]),)), Ref(this))]
            raise AnalysisError("bytes made of something unknown")
        if n.startswith("~"):
            return [(st, VOID)]
        if n == "operator=":
            if isinstance(a[0], Ref) and self.bytes_of(a[0].loc, st) is not None:
                s = st.copy()
                src = self.bytes_of(a[0].loc, s)
                if self.rvalue(e, 0) and a[0].loc != this:
                    self.set(s, a[0].loc, ())
                return [(self.set(s, this, src), Ref(this))]
            raise AnalysisError("bytes assigned from something unknown")
        if ps is None:
            raise AnalysisError("bytes of unknown contents (%s)" % n)
        size = self.total(ps)
        if n == "size":
            return [(st, size)]
        if n == "empty":
            return [(st, Bo("eq", size) if not size.const else TRUE if size.c == 0 else FALSE)]
        if n == "max_size":
            return [(st, Lin(2 ** 63 - 1))]
        if n == "capacity":
            s = st.copy()
            c = self.num("capacity", s, 0, 2 ** 62)
            return [(self.assume_le(s, size - c) or s, c)]
        if n in ("data", "begin", "cbegin"):
            return [(st, Ptr(this, Lin(0)))]
        if n in ("end", "cend"):
            return [(st, Ptr(this, size))]
        if n in ("reserve", "shrink_to_fit"):
            return [(st, VOID)]
        if n == "clear":
            return [(self.set(st.copy(), this, ()), VOID)]
        if n == "resize":
            k = self.n_of(a[0], st)
            out = []
            t, f = self.branch(st, self.cmp_lin("<=", k - size))
            for s in t:
                out += [(self.set(x.copy(), this, got), VOID) for x, got, _ in self.cut(s, ps, k, e)]
            for s in f:
                out.append((self.set(s.copy(), this, ps + (self.junk(k - size),)), VOID))
            return out
        if n in ("insert", "append_range", "append") and len(a) == 3:
            v = [self.raw(x, st) if isinstance(x, Ref) else x for x in a]
            if all(isinstance(x, Ptr) for x in v) and v[0].loc == this and v[1].loc == v[2].loc:
                out = []
                for s, got in self.read_at(st, v[1], (v[2].off or Lin(0)) - (v[1].off or Lin(0)), e):
                    for x, l, r in self.cut(s, ps, v[0].off or Lin(0), e):
                        out.append((self.set(x.copy(), this, l + got + r), v[0]))
                return out
        if n == "erase" and len(a) == 2:
            v = [self.raw(x, st) if isinstance(x, Ref) else x for x in a]
            if all(isinstance(x, Ptr) for x in v):
                out = []
                for s, l, r in self.cut(st, ps, v[0].off or Lin(0), e):
                    for x, _, r2 in self.cut(s, r, (v[1].off or Lin(0)) - (v[0].off or Lin(0)), e):
                        out.append((self.set(x.copy(), this, l + r2), v[0]))
                return out
        if n == "assign" and len(a) == 2:
            v = [self.raw(x, st) if isinstance(x, Ref) else x for x in a]
            if all(isinstance(x, Ptr) for x in v):
                return [(self.set(x.copy(), this, got), VOID) for x, got in
                        self.read_at(st, v[0], (v[1].off or Lin(0)) - (v[0].off or Lin(0)), e)]
        if n == "swap" and isinstance(a[0], Ref) and self.bytes_of(a[0].loc, st) is not None:
            s = st.copy()
            x = self.bytes_of(a[0].loc, s)
            self.set(s, a[0].loc, ps)
            return [(self.set(s, this, x), VOID)]
        raise AnalysisError("%s() on bytes" % n)

    # ------------------------------------------------------------ results
    def outcome(self, v, s):
        """('end',) | ('error', ec) | ('bytes', pieces) | ('num', n) | ('ok',)"""
        if isinstance(v, Ref):
            m = s.mem.get(v.loc)
            if m == Tok("unexpected"):
                return ("error", self.ec_of(Ref(v.loc + (("err",),)), s))
            if self.bytes_of(v.loc, s) is not None:
                return ("bytes", self.bytes_of(v.loc, s))
            if isinstance(m, Lin):
                return ("num", m)
            if isinstance(m, Tok) and m.k[:1] == ("ec",):
                return ("error", m.k[1])
            k = self.vstate(v.loc, s)
            if k == "some":
                x = v.loc + (("val",),)
                if x in s.mem:
                    return self.outcome(Ref(x), s)
                return ("ok",)
            if k == "none":
                if v.loc + (("err",),) in s.mem:
                    return ("error", self.ec_of(Ref(v.loc + (("err",),)), s))
                return ("end",)
            if "nullopt" in self.lty.get(v.loc, ""):
                return ("end",)
        if isinstance(v, Lin):
            return ("num", v)
        if isinstance(v, Tok) and "nullopt" in repr(v):
            return ("end",)
        if v is VOID or v == VOID or isinstance(v, Ref) and "awaitable" in self.lty.get(v.loc, "") and not any(
                k[:len(v.loc)] == v.loc for k in s.mem):
            return ("nothing",)
        raise AnalysisError("a result of unknown value: %r" % (v,))


# ---------------------------------------------------------------- the buffer
DB = "fitoria::dynamic_buffer<%s>" % CAP


def buffer_state(prog, rep, roles=True):
    it = Bytes(prog, rep)
    st = St()
    it.lty[SELF] = DB
    rec = prog.rec_by_type.get(DB)
    if rec is None:
        raise facts.AnalysisError("the buffer's class is gone")
    cont = [f["n"] for f in rec["fields"] if sq(unq(f["t"])) == "std::vector"]
    nums = [f["n"] for f in rec["fields"] if unq(f["t"]) in ("unsigned long", "std::size_t")]
    if len(cont) != 1 or len(nums) != 3 or len(rec["fields"]) != 4:
        raise facts.AnalysisError("the members of the buffer are not the ones known")
    return it, st, cont[0], nums


def method(prog, n, const=None, np=None):
    return [f for f in prog.fns.values() if f.get("n") == n and unq(f.get("rec") or "") == DB and f.get("body") is not None
            and (np is None or len(f["params"]) == np) and f.get("kind") not in ("ctor", "dtor")]


def roles(prog, rep):
    """which member is which, from what the observers do with distinct contents"""
    it, st, c, nums = buffer_state(prog, rep)
    for i, n in enumerate(nums):
        st.mem[SELF + (("f", n),)] = Lin(100 * (3 ** (i + 1)))
    it.set(st, SELF + (("f", c),), (it.junk(Lin(100000)),))
    it.run_setup()
    out = {}

    def value(name):
        fs = method(prog, name)
        if not fs:
            raise facts.AnalysisError("%s() of the buffer is gone" % name)
        res, _ = it.run(fs[0], [], st, SELF)
        if len(res) != 1:
            raise facts.AnalysisError("%s() of the buffer" % name)
        return res[0]
    vals = {n: Lin(100 * (3 ** (i + 1))) for i, n in enumerate(nums)}
    m = value("max_size")[1]
    for n in nums:
        if vals[n] == m:
            out["limit"] = n
    for f in method(prog, "data") + method(prog, "cdata"):
        for s, v in it.run(f, [], st, SELF)[0]:
            b = it.buf_of(v, s)
            for n in nums:
                if b and isinstance(b[0], Ptr) and n != out.get("limit") and b[0].off == vals[n]:
                    out.setdefault("r", n)
    rest = [n for n in nums if n not in out.values()]
    if len(out) != 2 or len(rest) != 1:
        raise facts.AnalysisError("the members of the buffer are not the ones known")
    out["w"], out["c"] = rest[0], c
    return out


def some_buffer(prog, rep, R, limited=True):
    """a buffer that holds D readable bytes behind r dead ones, and whatever else"""
    it, st, _, _ = buffer_state(prog, rep)
    r = it.num("r", st)
    d = it.num("d", st)
    x = it.num("x", st)
    lim = it.num("limit", st, 0, 2 ** 63 - 1)
    st = it.assume_le(st, r + d + x - lim)
    st.mem[SELF + (("f", R["r"]),)] = r
    st.mem[SELF + (("f", R["w"]),)] = r + d
    st.mem[SELF + (("f", R["limit"]),)] = lim
    for n in ("r", "w", "limit"):
        it.lty[SELF + (("f", R[n]),)] = "unsigned long"
    it.set(st, SELF + (("f", R["c"]),), ((("dead",), Lin(0), r), (("data",), Lin(0), d), (("more",), Lin(0), x)))
    it.run_setup()
    return it, st, r, d, x, lim


def view(it, s, R):
    """(readable pieces, dead, rest, problems) of a buffer"""
    r, w, c = [s.mem.get(SELF + (("f", R[k]),)) for k in ("r", "w", "c")]
    ps = it.bytes_of(SELF + (("f", R["c"]),), s)
    if not isinstance(r, Lin) or not isinstance(w, Lin) or ps is None:
        raise facts.AnalysisError("the buffer's members have unknown values")
    bad = []
    if not it.known_num(r) or not it.known_num(w):
        raise facts.AnalysisError("the buffer's members have unknown values")
    if not it.entails(s, r - w) or not it.entails(s, w - it.total(ps)) or not it.entails(s, -r):
        return None, "its offsets are out of order or beyond the bytes it holds"
    out = []
    for x, _, rest in it.cut(s, ps, r, None):
        for y, got, _ in it.cut(x, rest, w - r, None):
            out.append((y, got))
    if it.total(ps) and not it.entails(s, it.total(ps) - s.mem[SELF + (("f", R["limit"]),)]):
        return None, "it holds more than its limit"
    return out, None


def buffer(rep, prog):
    R = roles(prog, rep)
    count = 0
    D = ("data",)

    def check(f, key, it, s, want, what):
        nonlocal count
        count += 1
        got, err = view(it, s, R)
        if got is None:
            rep.violation("buffer:%s" % key, f, None, "after %s, %s" % (what, err))
            return
        for y, ps in got:
            r = it.same(y, ps, want)
            if r is False:
                rep.violation("buffer:%s" % key, f, None, "after %s, the readable bytes are %r instead of %r" % (what, ps, want))
            elif r is None:
                raise facts.AnalysisError("the readable bytes after %s are not known" % what)

    def unthrown(f, thr, what):
        for s, x in thr:
            rep.violation("buffer:throw:" + f["n"], f, None, "%s may throw %s" % (what, x))

    # observers
    for name in ("data", "cdata", "size", "max_size"):
        fs = method(prog, name)
        for f in fs:
            it, st, r, d, x, lim = some_buffer(prog, rep, R)
            res, thr = it.run(f, [], st, SELF)
            unthrown(f, thr, name)
            for s, v in res:
                count += 1
                if name in ("size", "max_size"):
                    want = d if name == "size" else lim
                    if not isinstance(v, Lin) or not it.eq0(s, v - want):
                        rep.violation("buffer:" + name, f, None, "%s() is not %s" % (name, want))
                    continue
                b = it.buf_of(v, s)
                if b is None:
                    raise facts.AnalysisError("%s() of the buffer is not a known buffer" % name)
                for y, ps in it.read_at(s, b[0], b[1], None):
                    if it.same(y, ps, ((D, Lin(0), d),)) is not True:
                        rep.violation("buffer:" + name, f, None, "%s() does not give the readable bytes" % name)
            rep.analysed(f)
            flush(rep, it, "dynamic_buffer")
    # consume and commit: no overflow, an overflow of the sum, more than there is
    for name in ("consume", "commit"):
        for f in method(prog, name):
            for case in ("some", "all", "huge"):
                it, st, r, d, x, lim = some_buffer(prog, rep, R)
                n = it.num("n", st, 0, TOP - 1)
                have = d if name == "consume" else x
                base = r if name == "consume" else r + d
                conds = {"some": [n - have + 1], "all": [have - n, base + n - TOP + 1], "huge": [Lin(TOP) - base - n]}[case]
                for c in conds:
                    st = st and it.assume_le(st, c)
                if st is None:
                    continue
                res, thr = it.run(f, [n], st, SELF)
                unthrown(f, thr, name)
                for s, v in res:
                    k = n if case == "some" else have
                    if name == "consume":
                        want = ((D, k, d - k),)
                        if it.eq0(s, d - k):
                            want = ()
                    else:
                        want = ((D, Lin(0), d), (("more",), Lin(0), k))
                    check(f, "%s:%s" % (name, case), it, s, want, "%s(%s)" % (name, {
                        "some": "fewer than there are", "all": "at least as many as there are", "huge": "a huge number"}[case]))
                rep.analysed(f)
                flush(rep, it, "dynamic_buffer")
    # prepare: room for n behind the readable bytes, or length_error
    for f in method(prog, "prepare"):
        it, st, r, d, x, lim = some_buffer(prog, rep, R)
        n = it.num("n", st, 0, TOP - 1)
        res, thr = it.run(f, [n], st, SELF)
        for s, ex in thr:
            count += 1
            if it.assume_le(s, d + n - lim) is not None:
                rep.violation("buffer:prepare:throw", f, None, "prepare(n) throws %s although n more bytes are within the limit" % ex)
        for s, v in res:
            check(f, "prepare:data", it, s, ((D, Lin(0), d),), "prepare(n)")
            b = it.buf_of(v, s)
            if b is None or not isinstance(b[1], Lin):
                raise facts.AnalysisError("prepare() does not give a known buffer")
            p = it.place(b[0], s)
            w = s.mem.get(SELF + (("f", R["w"]),))
            ps = it.bytes_of(SELF + (("f", R["c"]),), s)
            if not it.eq0(s, b[1] - n):
                rep.violation("buffer:prepare:size", f, None, "prepare(n) gives a place of another size")
            if it.assume_le(s, lim - d - n + 1) is not None:
                rep.violation("buffer:prepare:limit", f, None, "prepare(n) gives room beyond the limit")
                continue
            if p is None or p[0] != SELF + (("f", R["c"]),):
                rep.violation("buffer:prepare:where", f, None, "the place prepare(n) gives is not in the buffer")
                continue
            if not it.eq0(s, p[1] - w):
                rep.violation("buffer:prepare:where", f, None, "the place prepare(n) gives does not follow the readable bytes")
            if not it.entails(s, p[1] + b[1] - it.total(ps)):
                rep.violation("buffer:prepare:room", f, None,
                              "the place prepare(n) gives reaches beyond the bytes the buffer holds")
            # what is committed then is what was written there
            new = ((("new",), Lin(0), n),)
            try:
                written = it.write_at(s, b[0], new, None)
            except facts.AnalysisError:
                continue
            for y in written:
                for g in method(prog, "commit"):
                    res2, _ = it.run(g, [n], y, SELF)
                    for z, _ in res2:
                        check(g, "prepare:commit", it, z, ((D, Lin(0), d),) + new, "prepare(n), writing there and commit(n)")
        rep.analysed(f)
        it.bad = []
    # release
    for f in method(prog, "release"):
        it, st, r, d, x, lim = some_buffer(prog, rep, R)
        res, thr = it.run(f, [], st, SELF)
        unthrown(f, thr, "release")
        for s, v in res:
            count += 1
            o = it.outcome(v, s)
            if o[0] != "bytes" or it.same(s, o[1], ((D, Lin(0), d),)) is not True:
                rep.violation("buffer:release", f, None, "release() does not give exactly the readable bytes: %r" % (o,))
        rep.analysed(f)
        flush(rep, it, "dynamic_buffer")
    # construction
    for f in prog.fns.values():
        if unq(f.get("rec") or "") != DB or f.get("kind") != "ctor" or f.get("body") is None or f.get("defaulted") or len(f["params"]) > 1:
            continue
        if f["params"] and "dynamic_buffer" in f["params"][0]["t"]:
            continue
        it, st, _, _ = buffer_state(prog, rep)
        args, want, lim = [], (), Lin(2 ** 63 - 1)
        if f["params"]:
            if "vector" in f["params"][0]["t"]:
                d = it.num("d", st)
                l = (("ext", "given"),)
                it.lty[l] = CAP
                it.set(st, l, ((D, Lin(0), d),))
                want, args = ((D, Lin(0), d),), [Ref(l)]
            else:
                lim = it.num("limit", st, 0, 2 ** 63 - 1)
                args = [lim]
        it.run_setup()
        res, thr = it.run(f, args, st, SELF, ctor=True) if "ctor" in it.run.__code__.co_varnames else it.run(f, args, st, SELF)
        for s, _ in res:
            check(f, "ctor", it, s, want, "construction")
            if not it.eq0(s, s.mem[SELF + (("f", R["limit"]),)] - lim):
                rep.violation("buffer:ctor:limit", f, None, "a new buffer has another limit")
        rep.analysed(f)
        flush(rep, it, "dynamic_buffer")
    rep.obligation("states of the buffer compared", count)


# ---------------------------------------------------------------- reading and writing whole streams
class Io(Bytes):
    """files, sockets and parsers underneath, by what their operations may do"""

    def byte_call(self, n, q, rec, fn, st, this, args, e):
        b = rec.split("<")[0]
        if n in ("async_write", "async_write_some", "write_some_at") or n == "async_write_some_at":
            return self.write(n, st, this, args, e)
        if n == "make_chunk" and args:
            s = st.copy()
            l = self.tmp("boost::beast::http::chunk_body")
            x = self.buf_of(args[0], s)
            if x is None:
                raise AnalysisError("a chunk of unknown contents")
            s.mem[l] = Tok("wire", "chunk", x)
            return [(s, Ref(l))]
        if n == "make_chunk_last":
            s = st.copy()
            l = self.tmp("boost::beast::http::chunk_last")
            s.mem[l] = Tok("wire", "last", None)
            return [(s, Ref(l))]
        if (b.endswith("stream_file") or b.endswith("basic_file")) and this is not None:
            r = self.file_op(n, st, this, args, e)
            if r is not None:
                return r
        if n == "async_read" and len(args) >= 3:
            return self.parse(st, args, e)
        if this is not None and ("parser" in rec or rec.endswith("::message") or "basic_fields" in rec or "boost::beast::http" in rec):
            if n == "is_done":
                return [(st, self.mk(("done", sum(x[0] == "body" for x in self.trace(st))), "bool"))]
            if n in ("get", "body"):
                return [(st, Ref(this + (("part", n),)))]
        if "unique_ptr" in rec and this is not None and n in ("operator->", "operator*", "get"):
            p = self.raw(Ref(this), st)
            if isinstance(p, Ptr) and p.loc is not None:
                return [(st, Ref(p.loc) if n == "operator*" else p)]
        if "shared_ptr" in rec and this is not None and n in ("operator->", "operator*", "get"):
            l = this + (("owned",),)
            return [(st, Ref(l) if n == "operator*" else Ptr(l))]
        return Bytes.byte_call(self, n, q, rec, fn, st, this, args, e)

    def fail(self, st, e, tag, *ev):
        s = st.copy()
        k = ("io", tag, len(self.trace(s)))
        self.log(s, *(ev + ("failed", k)))
        return s, Ref(self.expected(s, self.a_type(e), err=k))

    def write(self, n, st, this, args, e):
        b = args[1] if this is None else args[0]
        w = st.mem.get(b.loc) if isinstance(b, Ref) else b
        kind = "data"
        if isinstance(w, Tok) and w.k[:1] == ("wire",):
            kind, buf = w.k[1], w.k[2]
        else:
            buf = self.buf_of(b, st)
            if buf is None:
                raise AnalysisError("something unknown is written")
        out = []
        for s, ps in self.read_at(st, buf[0], buf[1], e) if buf else [(st, ())]:
            total = self.total(ps)
            s = s.copy()
            if kind == "chunk" and self.eq0(s, total):
                kind = "last"       # a chunk of no bytes ends the body
            size = total
            if n != "async_write":
                size = self.num("part", s)
                s = self.assume_le(s, size - total) or s
            f = self.fail(s, e, "write", "write", kind, ps)
            self.log(s, "write", kind, ps, "ok", None)
            out.append((s, Ref(self.expected(s, self.a_type(e), v=size))))
            out.append(f)
        return out

    def file_op(self, n, st, this, args, e):
        if n == "size" and not args:
            return [(st, self.fsize(st))]
        if n == "seek":
            s = st.copy()
            off, wh = self.n_of(args[0], s), self.n_of(args[1], s) if not isinstance(args[1], Lin) else args[1]
            f = st.copy()
            self.log(s, "seek", off, wh.c if wh.const else None, "ok", None)
            k = ("io", "seek", len(self.trace(f)))
            self.log(f, "seek", off, wh.c if wh.const else None, "failed", k)
            if len(args) > 2:
                s.mem[args[2].loc] = Tok("ec", None)
                f.mem[args[2].loc] = Tok("ec", k)
                return [(s, off), (f, Lin(0))]
            self.throw(f, Exc("boost::system::system_error", e))
            return [(s, off)]
        if n == "async_read_some":
            b = self.buf_of(args[0], st)
            if b is None:
                raise AnalysisError("a file is read into something unknown")
            out = []
            s = st.copy()
            got = self.num("got", s, 1)
            s = self.assume_le(s, got - b[1])
            if s is not None:
                k = sum(x[0] == "fread" for x in self.trace(s))
                self.log(s, "fread", b[1], got, "ok", k)
                for x in self.write_at(s, b[0], ((("file", k), Lin(0), got),), e):
                    x = x.copy()
                    out.append((x, Ref(self.expected(x, self.a_type(e), v=got))))
            s = st.copy()
            self.log(s, "fread", b[1], Lin(0), "eof", None)
            out.append((s, Ref(self.expected(s, self.a_type(e), err=self.eof))))
            out.append(self.fail(st, e, "fread", "fread", b[1], Lin(0)))
            return out
        return None

    eof = ("enum", "boost::asio::error::misc_errors", 2)

    def fsize(self, st):
        if not hasattr(self, "_fs"):
            raise AnalysisError("the size of a file")
        return self._fs

    def parse(self, st, args, e):
        """one read of a message body into the place the parser was given"""
        p = args[2].loc if isinstance(args[2], Ref) else None
        base = p + (("part", "get"), ("part", "body"))
        data, size = base + (("f", "data"),), base + (("f", "size"),)
        if data not in st.mem or not isinstance(st.mem.get(size), Lin):
            raise AnalysisError("the parser was given no known place")
        d, n = st.mem[data], st.mem[size]
        k = sum(x[0] == "body" for x in self.trace(st))
        seen = [x for x in self.trace(st) if x[0] == "body"]
        if any(x[-2] == "failed" for x in seen):
            self.complain(e, "reads again after a failure")
            return []
        if sum(x[1] == "ok" for x in seen) > 1:
            self.complain(e, "keeps reading after the message is complete")
            return []
        if k >= self.chunks() + 2:
            return []
        out = []
        if any(x[1] == "ok" for x in seen):
            s = st.copy()
            self.log(s, "body", "ok", n, Lin(0))
            return [(s, Ref(self.expected(s, self.a_type(e), v=Lin(0))))]
        for kind in ("ok", "full"):
            s = st.copy()
            if kind == "full":
                got = n
                s = self.assume_le(s, Lin(1) - n)
            else:
                got = self.num("got", s)
                s = self.assume_le(s, got - n)
            if s is None:
                continue
            self.log(s, "body", kind, n, got)
            ps = ((("body", k), Lin(0), got),)
            for x in self.write_at(s, d, ps, e):
                x = x.copy()
                x.mem[size] = n - got
                if isinstance(d, Ptr):
                    x.mem[data] = Ptr(d.loc, (d.off or Lin(0)) + got)
                if kind == "ok":
                    out.append((x, Ref(self.expected(x, self.a_type(e), v=sym(self.fresh("n", "unsigned long"))))))
                else:
                    out.append((x, Ref(self.expected(x, self.a_type(e), err=self.need))))
        f, v = self.fail(st, e, "body", "body", "error", n)
        got = self.num("lost", f)
        f = self.assume_le(f, got - n)
        if f is not None:
            for x in self.write_at(f, d, ((("lost", k), Lin(0), got),), e):
                x = x.copy()
                x.mem[size] = n - got
                out.append((x, v))
        return out


def const(prog, name):
    """the value of a constant, as the driver's function of that name returns it"""
    f = [f for f in prog.fns.values() if f.get("n") == name and f.get("body") is not None]
    it = Io(prog)
    it.run_setup()
    res, _ = it.run(f[0], [], St())
    v = res[0][1]
    if not isinstance(v, Lin) or not v.const:
        raise facts.AnalysisError("the constant %s" % name)
    return v.c


def free(prog, name):
    fs = [f for f in prog.fns.values() if f.get("n") == name and f.get("body") is not None and not f.get("rec")]
    if not fs:
        raise facts.AnalysisError("%s is gone" % name)
    return fs


def read_part(it, s):
    return [x for x in it.trace(s) if x[0] == "read"]


def chunks_read(it, s):
    return tuple((("chunk", x[2]), Lin(0), x[3]) for x in read_part(it, s) if x[1] == "chunk")


def ended(rep, f, key, reads):
    """the course of the source: what it ended with, nothing read after that"""
    if any(x[1] == "again" for x in reads):
        rep.violation(key + ":again", f, None, "the stream is read again after its end or an error")
    for x in reads:
        if x[1] in ("end", "error"):
            return x
    return None


def begin_io(prog, rep, f):
    it = Io(prog, rep)
    it.need = ("enum", "boost::beast::http::error", const(prog, "e_need_buffer"))
    it.eof = ("enum", "boost::asio::error::misc_errors", const(prog, "e_eof"))
    st = St()
    args = []
    for p in f["params"]:
        l = (("ext", "arg%d" % len(args)),)
        it.lty[l] = unq(p["t"]).rstrip("& ")
        st.mem[l] = Tok("obj", p["n"])
        args.append(Ref(l))
    it.run_setup()
    return it, st, args


def readers(rep, prog):
    n = 0
    for name in ("async_read_until_eof", "async_read_into_stream_file", "async_write_chunks"):
        for f in free(prog, name):
            it, st, args = begin_io(prog, rep, f)
            res, thr = it.run(f, args, st)
            for s, x in thr:
                if "length_error" not in str(x):
                    rep.violation(name + ":throw", f, None, "%s may throw %s" % (name, x))
            for s, v in res:
                n += 1
                o = it.outcome(v, s)
                reads = read_part(it, s)
                end = ended(rep, f, name, reads)
                want = chunks_read(it, s)
                writes = [x for x in it.trace(s) if x[0] == "write"]
                fault = [x for x in writes if x[3] == "failed"]
                for i, x in enumerate(writes):
                    if x[3] == "failed" and x is not it.trace(s)[-1]:
                        rep.violation(name + ":goes-on", f, None, "%s goes on after a failed write" % name)
                if fault:
                    if o != ("error", fault[0][4]):
                        rep.violation(name + ":fault", f, None, "%s does not give the error of the write that failed" % name)
                elif end is None:
                    rep.violation(name + ":early", f, None, "%s stops before the end of the stream, after %s" % (
                        name, ", ".join(x[1] for x in reads) or "no read"))
                    continue
                elif end[1] == "error":
                    if o != ("error", ("up", end[2])):
                        rep.violation(name + ":error", f, None, "%s gives %r after the stream failed, not its error" % (name, o))
                elif name == "async_read_until_eof":
                    if o[0] != "bytes" or it.same(s, o[1], want) is False:
                        rep.violation(name + ":bytes", f, None, "%s gives %r for the chunks %r" % (name, o, want))
                    elif it.same(s, o[1], want) is None:
                        raise facts.AnalysisError("what %s gives is not known" % name)
                elif name == "async_read_into_stream_file":
                    if o[0] != "num" or not it.eq0(s, o[1] - it.total(want)):
                        rep.violation(name + ":count", f, None, "%s does not give the number of bytes written" % name)
                elif o != ("ok",) and o[0] != "num":
                    rep.violation(name + ":ok", f, None, "%s fails although all was written: %r" % (name, o))
                if name != "async_read_until_eof":
                    body = [x for x in writes if x[1] != "last"]
                    got = tuple(p for x in body for p in x[2])
                    upto = want
                    if it.same(s, got, upto) is False:
                        rep.violation(name + ":written", f, None, "%s writes %r of the chunks %r" % (name, got, upto))
                    if name == "async_write_chunks":
                        if any(x[1] == "data" for x in writes):
                            rep.violation(name + ":raw", f, None, "bytes are written without a chunk around them")
                        last = [i for i, x in enumerate(writes) if x[1] == "last"]
                        done = end is not None and end[1] == "end" and not (fault and fault[0][1] != "last")
                        if (len(last) != 1 or last[0] != len(writes) - 1) if done else last:
                            rep.violation(name + ":last", f, None, "the last chunk is %s" % (
                                "written before the end of the stream, or although it failed" if last else "missing"))
                    elif any(x[1] != "data" for x in writes):
                        rep.violation(name + ":wire", f, None, "chunk framing is written to a file")
            rep.analysed(f)
            flush(rep, it, name)
    rep.obligation("courses of whole streams compared", n)


def members(prog, cls, name):
    fs = [f for f in prog.fns.values() if f.get("n") == name and f.get("body") is not None and
          sq(unq(f.get("rec") or "")) == "web::" + cls and f.get("kind") not in ("dtor",)]
    if not fs:
        raise facts.AnalysisError("%s::%s is gone" % (cls, name))
    return fs


def sources(rep, prog):
    n = 0
    # a given sequence of bytes, once
    cls = "async_readable_vector_stream"
    reader = members(prog, cls, "async_read_some")[0]
    for f in [f for f in prog.fns.values() if f.get("kind") == "ctor" and sq(unq(f.get("rec") or "")) == "web::" + cls
              and (f.get("body") is not None) and not (f["params"] and cls in f["params"][0]["t"])]:
        for case in ("none", "some"):
            it = Io(prog, rep)
            st = St()
            it.lty[SELF] = unq(f["rec"])
            l = (("ext", "given"),)
            d = it.num("d", st, 1) if case == "some" else None
            want = ((("data",), Lin(0), d),) if d is not None else ()
            args = []
            if f["params"]:
                if "span" in f["params"][0]["t"]:
                    it.lty[l] = CAP
                    it.set(st, l, want)
                    sp = (("ext", "span"),)
                    it.lty[sp] = unq(f["params"][0]["t"])
                    st.mem[sp] = Tok("buf", Ptr(l, Lin(0)), it.total(want))
                    args = [Ref(sp)]
                else:
                    it.lty[l] = CAP
                    it.set(st, l, want)
                    args = [Ref(l)]
            it.run_setup()
            e = {"k": "CXXConstructExpr", "t": f["rec"], "args": [], "l": f["l"]}
            it.run(f, args, st, SELF)
            res = construct(it, f, args, st)
            for s, _ in res:
                for s1, v1 in it.run(reader, [], s, SELF)[0]:
                    n += 1
                    o = it.outcome(v1, s1)
                    has = case == "some" and f["params"]
                    if has and (o[0] != "bytes" or it.same(s1, o[1], want) is not True):
                        rep.violation(cls + ":first", reader, None, "the first read gives %r instead of the bytes given" % (o,))
                    if not has and o != ("end",) and o != ("bytes", ()):
                        rep.violation(cls + ":empty", reader, None, "an empty stream gives %r" % (o,))
                    for s2, v2 in it.run(reader, [], s1, SELF)[0]:
                        o2 = it.outcome(v2, s2)
                        if o2 != ("end",):
                            rep.violation(cls + ":second", reader, None, "reading again gives %r instead of the end" % (o2,))
            rep.analysed(f)
            flush(rep, it, cls)
    rep.analysed(reader)
    rep.obligation("courses of given bytes compared", n)


def construct(it, f, args, st):
    """run a constructor, with the members' initial values"""
    it.frames = it.frames[:1]
    it.rets = [[]]
    it.tc = [[]]
    e = {"k": "CXXConstructExpr", "t": f["rec"], "cls": f["rec"], "args": [{"t": p["t"], "lv": 2} for p in f["params"]], "l": f["l"]}
    return it.call_body(f, SELF, args, st, e, True)


def files(rep, prog):
    n = 0
    cls = "async_readable_file_stream"
    reader = members(prog, cls, "async_read_some")[0]
    ctors = [f for f in prog.fns.values() if f.get("kind") == "ctor" and sq(unq(f.get("rec") or "")) == "web::" + cls
             and f.get("body") is not None and not (f["params"] and cls in f["params"][0]["t"])]
    for f in ctors:
        cases = [None] if len(f["params"]) == 1 else ["rest", "some"]
        for case in cases:
            it = Io(prog, rep)
            st = St()
            it.eof = ("enum", "boost::asio::error::misc_errors", const(prog, "e_eof"))
            it._fs = it.num("filesize", st, 0, 2 ** 62)
            it.lty[SELF] = unq(f["rec"])
            l = (("ext", "file"),)
            it.lty[l] = unq(f["params"][0]["t"]).rstrip("& ")
            st.mem[l] = Tok("obj", "file")
            args, off, left = [Ref(l)], Lin(0), it._fs
            if case:
                off = it.num("offset", st, 0, 2 ** 62)
                st = it.assume_le(st, off - it._fs)
                left = it._fs - off
                o = (("ext", "size"),)
                it.lty[o] = unq(f["params"][2]["t"]).rstrip("& ")
                if case == "rest":
                    it.vset(o, st, "none")
                else:
                    left = it.num("size", st, 0, 2 ** 62)
                    st = it.assume_le(st, left + off - it._fs)
                    it.vset(o, st, "some")
                    st.mem[o + (("val",),)] = left
                args += [off, Ref(o)]
            it.run_setup()
            work = [(s, Lin(0), 0) for s, _ in construct(it, f, args, st)]
            while work:
                s, done, k = work.pop()
                before = it.trace(s)
                rs, thr = it.run(reader, [], s, SELF)
                for x, ex in thr:
                    rep.violation(cls + ":throw", reader, None, "reading a file may throw %s" % ex)
                for x, v in rs:
                    n += 1
                    o = it.outcome(v, x)
                    new = it.trace(x)[len(before):]
                    fr = [y for y in new if y[0] == "fread"]
                    sk = [y for y in new if y[0] == "seek"]
                    allsk = [y for y in it.trace(x) if y[0] == "seek"]
                    bad = [y for y in new if y[-2] == "failed"]
                    pos = pos_of(it, x)
                    if fr and not it.eq0(x, (pos if pos is not None else Lin(-1)) - off - done):
                        rep.violation(cls + ":place", reader, None,
                                      "the file is read at %s instead of %s" % (pos, off + done))
                    for y in fr:
                        if not it.entails(x, done + y[1] - left):
                            rep.violation(cls + ":beyond", reader, None, "more of the file is asked for than is to be sent")
                        if not it.entails(x, Lin(1) - y[1]):
                            rep.violation(cls + ":nothing", reader, None, "the file is read into a place of no bytes")
                    if bad:
                        if o != ("error", bad[-1][-1]):
                            rep.violation(cls + ":error", reader, None, "the error of a failed %s is not given" % bad[-1][0])
                        continue
                    if fr and fr[-1][3] == "eof":
                        if o != ("end",):
                            rep.violation(cls + ":eof", reader, None, "the end of the file gives %r" % (o,))
                        continue
                    if not fr:
                        if o != ("end",) or it.assume_le(x, done - left + 1) is not None:
                            rep.violation(cls + ":early", reader, None, "gives %r without reading although bytes remain" % (o,))
                        continue
                    ok = tuple((("file", y[4]), Lin(0), y[2]) for y in fr)
                    if o[0] != "bytes" or it.same(x, o[1], ok) is not True:
                        rep.violation(cls + ":bytes", reader, None, "gives %r instead of the bytes read, %r" % (o, ok))
                    if k < 2:
                        work.append((x, done + it.total(ok), k + 1))
            rep.analysed(f)
            flush(rep, it, cls)
    rep.analysed(reader)
    rep.obligation("courses of reading a file compared", n)


def pos_of(it, s):
    """where in the file the last read of the trace began"""
    pos = Lin(0)
    tr = it.trace(s)
    last = max((i for i, y in enumerate(tr) if y[0] == "fread"), default=None)
    for y in tr[:last]:
        if y[0] == "seek" and y[3] == "ok":
            pos = y[1] if y[2] == 0 else pos + y[1] if y[2] == 1 else None
        elif y[0] == "fread" and y[3] == "ok" and pos is not None:
            pos = pos + y[2]
        if pos is None:
            return None
    return pos


def bodies(rep, prog):
    n = 0
    cls = "async_message_parser_stream"
    for f in members(prog, cls, "async_read_some"):
        it = Io(prog, rep)
        it.need = ("enum", "boost::beast::http::error", const(prog, "e_need_buffer"))
        st = St()
        it.lty[SELF] = unq(f["rec"])
        it.run_setup()
        res, thr = it.run(f, [], st, SELF)
        for s, x in thr:
            if "length_error" not in str(x):
                rep.violation(cls + ":throw", f, None, "reading a body may throw %s" % x)
        for s, v in res:
            n += 1
            o = it.outcome(v, s)
            rd = [x for x in it.trace(s) if x[0] == "body"]
            bad = [x for x in rd if x[-2] == "failed"]
            if not rd:
                if o != ("end",):
                    rep.violation(cls + ":done", f, None, "gives %r although nothing was read" % (o,))
                elif it.branch(s, it.mk(("done", 0), "bool"))[1]:
                    rep.violation(cls + ":early", f, None, "ends although the message is not complete")
                continue
            if it.branch(s, it.mk(("done", 0), "bool"))[0] and not it.branch(s, it.mk(("done", 0), "bool"))[1]:
                rep.violation(cls + ":after", f, None, "reads although the message is complete")
            if bad:
                if o != ("error", bad[-1][-1]) or bad[-1] is not rd[-1]:
                    rep.violation(cls + ":error", f, None, "the error of a failed read is not given: %r" % (o,))
                continue
            want = tuple((("body", i), Lin(0), x[3]) for i, x in enumerate(rd))
            r = it.same(s, o[1], want) if o[0] == "bytes" else False
            if r is False:
                rep.violation(cls + ":bytes", f, None, "gives %r of the bytes read, %r" % (o, want))
            elif r is None:
                raise facts.AnalysisError("what a read of the body gives is not known")
        rep.analysed(f)
        flush(rep, it, cls)
    rep.obligation("courses of reading a body compared", n)


def erased(rep, prog):
    """a stream behind a type-erased one: what it yields, passed on as it is"""
    n = 0
    for f in prog.fns.values():
        rec = sq(unq(f.get("rec") or ""))
        if f.get("n") != "async_read_some" or f.get("body") is None or "any_async_readable_stream" not in rec:
            continue
        if "vector_stream" in (f.get("rec") or ""):
            continue
        it = Io(prog, rep)
        st = St()
        it.lty[SELF] = unq(f["rec"])
        for fl in (prog.rec_by_type.get(unq(f["rec"])) or {"fields": []})["fields"]:
            l = SELF + (("f", fl["n"]),)
            it.lty[l] = unq(fl["t"])
            st.mem[l] = Ptr((("ext", "held"),)) if "unique_ptr" in fl["t"] else Tok("obj", "stream")
        it.run_setup()
        res, thr = it.run(f, [], st, SELF)
        for s, v in res:
            n += 1
            reads = read_part(it, s)
            o = it.outcome(v, s)
            if len(reads) != 1:
                rep.violation("erased:reads", f, None, "one read of a type-erased stream is %d reads of the stream in it" % len(reads))
                continue
            x = reads[0]
            want = {"end": ("end",), "error": ("error", ("up", x[2])), "empty": ("bytes", ()),
                    "chunk": ("bytes", ((("chunk", x[2]), Lin(0), x[-1]),))}[x[1]]
            if o != want:
                rep.violation("erased:" + x[1], f, None, "gives %r for %s" % (o, x[1]))
        rep.analysed(f)
        flush(rep, it, "any_async_readable_stream")
    rep.obligation("courses of type-erased streams compared", n)


PARTS = {"buffer": buffer, "readers": readers, "sources": sources, "files": files, "bodies": bodies, "erased": erased}


def main(rep):
    prog = facts.load("streams")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("states", sum(n for k, n in rep.obl if "compared" in k), 20)


if __name__ == "__main__":
    report.run("C17", "abstract interpretation of buffers and streams over pieces of known origin",
               "no byte is lost, repeated, reordered or invented between a stream and what reads it", main)
