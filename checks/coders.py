"""C18: streams that compress or decompress what another one gives."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/engine")
import facts  # noqa: E402
import report  # noqa: E402
import streams  # noqa: E402
from absint import Out  # noqa: E402
from objs import *  # noqa: E402
from spec import *  # noqa: E402
from streams import GH, SELF, Io, construct  # noqa: E402
from strs import flush  # noqa: E402

PIECE = 2 ** 31 - 1
Z = "boost::beast::zlib::"
CODERS = {  # class: (direction, what drives it underneath)
    "async_deflate_stream": ("in", "beast"), "async_inflate_stream": ("out", "beast"),
    "async_gzip_deflate_stream": ("in", "zlib"), "async_gzip_inflate_stream": ("out", "zlib"),
    "async_brotli_deflate_stream": ("in", "brotli"), "async_brotli_inflate_stream": ("out", "brotli"),
}
NATIVE = ("gzip_deflate_stream", "gzip_inflate_stream", "brotli_encoder", "brotli_decoder")
NUMS = ("unsigned int", "unsigned long")


class Coder(Io):
    """the compression libraries, by the contract of one call: what was given, how much of it was taken, how much was put out"""
    most = 24
    limit = 3
    made = 0

    def __init__(self, prog, rep=None):
        Io.__init__(self, prog, rep)
        self.k = {}
        for f in prog.fns.values():
            if f.get("n", "").startswith("k_") and f.get("body") is not None:
                it = Io(prog)
                it.run_setup()
                v = it.run(f, [], St())[0][0][1]
                if isinstance(v, Lin) and v.const:
                    self.k[f["n"][2:]] = v.c

    def num(self, tag, st, lo=0, hi=PIECE):
        return Io.num(self, tag, st, lo, min(hi, PIECE) if tag in ("len", "taken", "put") else hi)

    def compare(self, op, a, b, st, e=None):
        """two objects of the check's own are two objects"""
        if op in ("==", "!=") and all(isinstance(x, (Ptr, Ref)) and x.loc and x.loc[0][0] in ("own", "made") for x in (a, b)) \
                and type(a) == type(b) and a.loc[0] != b.loc[0]:
            return FALSE if op == "==" else TRUE
        return Io.compare(self, op, a, b, st, e)

    def loop(self, n, sts, cond, body, inc, post=False):
        """loops are followed round by round: the number of calls of the coder bounds them"""
        out = Out()
        work = [(s, 0, post) for s in sts]
        while work:
            s, i, skip = work.pop()
            if i > self.most:
                raise AnalysisError("a loop that does not end: %s" % words(self.trace(s))[-300:])
            t, f = ([s], []) if skip else cond(s)
            out.n += f
            for x in t:
                o = self.ex(body, x)
                out.n += o.b
                for y in o.n + o.c:
                    work += [(z, i + 1, False) for z, _ in self.ev(inc, y)] if inc is not None else [(y, i + 1, False)]
        return out

    # ------------------------------------------------------------ the stream underneath
    def next_chunk(self, st, e):
        tr = [x for x in self.trace(st) if x[0] == "read"]
        if tr and tr[-1][1] == "end":
            s = st.copy()
            self.log(s, "read", "end", len(tr))
            l = self.tmp(self.a_type(e))
            self.vset(l, s, "none")
            return [(s, Ref(l))]
        return Io.next_chunk(self, st, e)

    # ------------------------------------------------------------ one call of a library
    def code(self, st, e, way, op, ip, n, op_, m):
        """[(state, result, taken, put)]; result: ok | more (nothing to be done) | end | bad1 | bad2"""
        tr = self.trace(st)
        mine = [x for x in tr if x[0] == "code"]
        now = []
        for x in reversed(tr):
            if x[0] == "mark":
                break
            if x[0] == "code":
                now.insert(0, x)
        last = mine[-1] if mine else None
        if last and last[3] in ("bad1", "bad2"):
            self.complain(e, "goes on after the coder failed")
            return []
        ended = any(x[3] == "end" for x in mine)
        if ended and sum(x[1] == "past" for x in now) >= 1:
            self.complain(e, "calls the coder again and again after the end of the data")
            return []
        if len(now) >= self.limit + (last is not None and last[3] == "more"):
            return []
        given = ()
        sts = [st]
        if not self.eq0(st, n) and not (ended and way == "out"):
            sts = []
            for s, ps in self.read_at(st, ip, n, e):
                s = self.offered(s, ps, mine, e)
                if s is not None:
                    sts.append(s)
        out = []

        def put(s, res, c, g, kind=None):
            s = s.copy()
            k = sum(x[0] == "code" for x in self.trace(s))
            full = self.entails(s, m - g)
            self.log(s, "code", kind or op, c, res, g, full)
            for x in self.write_at(s, op_, ((("out", k), Lin(0), g),), e):
                out.append((x, res, c, g))

        def some(tag, s, lo, hi):
            v = self.num(tag, s, lo)
            s = self.assume_le(s, v - hi)
            return s, v
        for s in sts:
            if ended:
                if way == "in" and not self.eq0(s, n):
                    self.complain(e, "gives more to a compressor that was finished")
                    continue
                put(s, "end", Lin(0), Lin(0), "past")
                continue
            put(s, "bad1", Lin(0), Lin(0))
            if way == "out":
                put(s, "bad2", Lin(0), Lin(0))
            empty = self.assume_le(s, n)
            fed = self.assume_le(s, Lin(1) - n)
            room = self.assume_le(s, Lin(1) - m)
            if room is None:
                self.complain(e, "gives the coder no room for its output")
                continue
            if op == "finish" and way == "in":
                x = room.copy()
                x, g = some("put", x, 0, m)
                if x is not None:
                    put(x, "end", n, g)
                if not (last and last[1] == "finish" and not last[5]):
                    put(room, "ok", n, m)
                continue
            if empty is not None:
                if op == "flush" and way == "in" and not (last and last[1] == "flush" and not last[5]):
                    x, g = some("put", room.copy(), 1, m)
                    if x is not None:
                        put(x, "ok", Lin(0), g)
                else:
                    idle = last is not None and last[3] == "more" and last[1] == op
                    if idle and len(now) > 1 and now[-2][3] == "more":
                        self.complain(e, "calls the coder again and again although there is nothing to be done")
                        continue
                    put(empty, "more", Lin(0), Lin(0))
                    if last and last[5]:
                        x, g = some("put", room.copy(), 1, m)
                        if x is not None:
                            put(x, "ok", Lin(0), g)
                        x, g = some("put", room.copy(), 0, m)
                        if way == "out" and x is not None:
                            put(x, "end", Lin(0), g)
            if fed is None:
                continue
            x = self.assume_le(fed, Lin(1) - m)
            if x is None:
                continue
            y, g = some("put", x.copy(), 0, m - 1)      # all of the input taken
            if y is not None:
                put(y, "ok", n, g)
            y, c = some("taken", x.copy(), 0, n)        # the place for the output filled
            if y is not None:
                put(y, "ok", c, m)
            if op == "block":
                y, c = some("taken", x.copy(), 1, n)
                y, g = some("put", y, 0, m)
                if y is not None:
                    put(y, "ok", c, g)
            if way == "out":
                y, c = some("taken", x.copy(), 0, n)
                y, g = some("put", y, 0, m)
                if y is not None:
                    put(y, "end", c, g)
        return out

    def offered(self, s, ps, mine, e):
        """what is given must be the beginning of what was read and not yet taken"""
        todo = self.chunks_of(s)
        got = Lin(0)
        for x in mine:
            got = got + x[2]
        for t, _, rest in self.cut(s, todo, got, None):
            for u, head, _ in self.cut(t, rest, self.total(ps), None):
                r = self.same(u, ps, head)
                if r is None:
                    raise AnalysisError("what is given to the coder is not known")
                if r is False:
                    self.complain(e, "gives the coder %r instead of what follows the bytes it took, %r" % (ps, head))
                    return None
        return s

    def chunks_of(self, s):
        return tuple((("chunk", x[2]), Lin(0), x[3]) for x in self.trace(s) if x[0] == "read" and x[1] == "chunk")

    # ------------------------------------------------------------ the libraries' functions
    def field(self, l, n):
        return l + (("f", n),)

    def target(self, v, st):
        """the place a pointer to an object or a reference means"""
        if isinstance(v, Ref):
            w = st.mem.get(v.loc)
            if isinstance(w, (Ptr, Ref)):
                v = w
        if isinstance(v, (Ptr, Ref)) and v.loc is not None:
            return v.loc
        raise AnalysisError("a pointer of unknown value")

    def at(self, l, st):
        v = st.mem.get(l)
        if isinstance(v, (Lin, Ptr, Ref)):
            return v
        raise AnalysisError("the coder is given something unknown")

    def stream_call(self, l, st, e, way, op, done):
        """a call with a z_stream or z_params at l"""
        ip, n, o, m = [self.at(self.field(l, x), st) for x in ("next_in", "avail_in", "next_out", "avail_out")]
        ip, o = self.raw(ip, st), self.raw(o, st)
        out = []
        for s, res, c, g in self.code(st, e, way, op, ip, self.n_of(n, st), o, self.n_of(m, st)):
            if isinstance(ip, Ptr) and ip.loc is not None:
                s.mem[self.field(l, "next_in")] = Ptr(ip.loc, (ip.off or Lin(0)) + c)
            if isinstance(o, Ptr) and o.loc is not None:
                s.mem[self.field(l, "next_out")] = Ptr(o.loc, (o.off or Lin(0)) + g)
            s.mem[self.field(l, "avail_in")] = n - c
            s.mem[self.field(l, "avail_out")] = m - g
            for x in ("total_in", "total_out"):
                s.mem[self.field(l, x)] = sym(self.fresh("total", "unsigned long"))
            out += done(s, res)
        return out

    def op_of(self, v, table):
        if isinstance(v, Lin) and v.const:
            return table.get(v.c, "process")
        raise AnalysisError("an operation of unknown value")

    def byte_call(self, n, q, rec, fn, st, this, args, e):
        k = self.k
        if rec in (Z + "deflate_stream", Z + "inflate_stream") and this is not None:
            if n == "write":
                op = self.op_of(self.n_of(args[1], st), {k["finish"]: "finish", k["block"]: "block", k["trees"]: "block"})
                way = "in" if "deflate" in rec else "out"

                def done(s, res):
                    s.mem[args[2].loc] = Tok("ec", {
                        "ok": None, "end": ("enum", Z + "error", k["end_of_stream"]), "more": ("enum", Z + "error", k["need_buffers"]),
                        "bad1": ("codec", "data"), "bad2": ("codec", "dictionary")}[res])
                    return [(s, VOID)]
                return self.stream_call(self.target(args[0], st), st, e, way, op, done)
            if n in ("deflate_stream", "inflate_stream") or n.startswith("~"):
                return [(st, Ref(this) if not n.startswith("~") else VOID)]
            raise AnalysisError("%s() of a coder" % n)
        if this is None and not rec and n in ("deflate", "inflate") and len(args) == 2:
            l = self.target(args[0], st)
            self.alive(l, st, e)
            op = self.op_of(self.n_of(args[1], st), {k["Z_FINISH"]: "finish", k["Z_BLOCK"]: "block", k["Z_TREES"]: "block"})

            def done(s, res):
                return [(s, Lin({"ok": k["Z_OK"], "end": k["Z_STREAM_END"], "more": k["Z_BUF_ERROR"], "bad1": k["Z_DATA_ERROR"],
                                 "bad2": k["Z_NEED_DICT"]}[res]))]
            return self.stream_call(l, st, e, "in" if n == "deflate" else "out", op, done)
        if this is None and not rec and n in ("deflateInit2_", "inflateInit2_", "deflateInit_", "inflateInit_"):
            return self.z_init(n, st, args, e)
        if this is None and not rec and n in ("deflateEnd", "inflateEnd"):
            s = st.copy()
            self.end(self.target(args[0], st), s, e)
            return [(s, Lin(0))]
        if this is None and not rec and n.startswith("Brotli"):
            return self.brotli(n, st, args, e)
        if n == "make_unique":
            ty = targs(unq(e.get("t", "")))[0]
            self.made += 1
            s = st.copy()
            l = (("made", self.made, self.fresh("o")),)
            self.lty[l] = ty
            return [(s, Ptr(l))]
        if "unique_ptr" in rec and this is not None:
            return self.owner(n, st, this, args, e)
        if n in ("swap", "exchange") and len(args) == 2 and all(isinstance(a, Ref) for a in args[:1]):
            r = self.swap(n, st, args, e)
            if r is not None:
                return r
        return Io.byte_call(self, n, q, rec, fn, st, this, args, e)

    def swap(self, n, st, args, e):
        a, b = args
        x, y = st.mem.get(a.loc), st.mem.get(b.loc) if isinstance(b, Ref) else b
        if not isinstance(x, Ptr) or not isinstance(y, (Ptr, type(None), Lin)):
            return None
        if not isinstance(y, Ptr):
            y = Ptr(None)
        s = st.copy()
        s.mem[a.loc] = y
        if n == "swap":
            s.mem[b.loc] = x
            return [(s, VOID)]
        return [(s, x)]

    def owner(self, n, st, this, args, e):
        v = [self.own(a, st) for a in args]
        s = st.copy()
        if n == "unique_ptr":
            s.mem[this] = v[0] if v else Ptr(None)
            if args and isinstance(args[0], Ref) and isinstance(st.mem.get(args[0].loc), Ptr):
                s.mem[args[0].loc] = Ptr(None)
            return [(s, Ref(this))]
        if n.startswith("~"):
            p = st.mem.get(this)
            if isinstance(p, Ptr) and p.loc is not None:
                self.freed(p.loc, s, e)
            return [(s, VOID)]
        p = st.mem.get(this)
        if not isinstance(p, Ptr):
            raise AnalysisError("an owning pointer of unknown value")
        if n in ("operator=", "reset"):
            new = v[0] if v else Ptr(None)
            if args and isinstance(args[0], Ref) and isinstance(st.mem.get(args[0].loc), Ptr):
                s.mem[args[0].loc] = Ptr(None)
            s.mem[this] = new
            if p.loc is not None and p.loc != new.loc:
                self.freed(p.loc, s, e)
            return [(s, Ref(this) if n == "operator=" else VOID)]
        if n == "release":
            s.mem[this] = Ptr(None)
            return [(s, p)]
        if n == "swap":
            q = st.mem.get(args[0].loc)
            s.mem[this], s.mem[args[0].loc] = q, p
            return [(s, VOID)]
        if n in ("operator->", "operator*", "get"):
            if p.loc is None and n != "get":
                self.complain(e, "uses a coder it does not have")
                return []
            return [(st, Ref(p.loc) if n == "operator*" else p)]
        if n == "operator bool":
            return [(st, TRUE if p.loc is not None else FALSE)]
        raise AnalysisError("%s() of an owning pointer" % n)

    def memberwise(self, rec, fn, this, other, st, e, assign):
        """the copy, move or assignment the compiler writes"""
        ty = unq((fn or {}).get("rec") or (rec or {}).get("rec") or "")
        fs = members_of(self.p, ty)
        if not any("unique_ptr" in f["t"] for f in fs):
            return Io.memberwise(self, rec, fn, this, other, st, e, assign)
        s = st
        for f in fs:
            a, b = this + (("f", f["n"]),), other + (("f", f["n"]),)
            if "unique_ptr" in f["t"]:
                self.lty[a] = unq(f["t"])
                [(s, _)] = self.owner("operator=" if assign else "unique_ptr", s, a, [Ref(b)], e)
            else:
                self.copy_obj(b, a, s)
        return [(s, Ref(this))]

    def own(self, a, st):
        if isinstance(a, Ref):
            a = st.mem.get(a.loc)
        if isinstance(a, Ptr):
            return a
        if isinstance(a, Lin) or a is None or isinstance(a, Tok) and "null" in repr(a):
            return Ptr(None)
        raise AnalysisError("an owning pointer of something unknown")

    def hook_assert(self, st, e):
        self.complain(e, "asserts something that need not hold")

    # ------------------------------------------------------------ which coders there are
    def run_frames(self):
        self.run_setup()
        self.frames, self.rets, self.tc = self.frames[:1], [[]], [[]]

    def free_member(self, s, l, m, node):
        """the member that owns the memory goes with its object"""
        p = s.mem.get(l + m[len(l):])
        if isinstance(p, Ptr) and p.loc is not None and "unique_ptr" in self.lty.get(l + m[len(l):], ""):
            s = s.copy()
            self.freed(p.loc, s, None)
        return [s]

    def life(self, st):
        return {x[1]: x[2] for x in self.trace(st) if x[0] == "life"}

    def alive(self, l, st, e):
        v = self.life(st).get(l)
        if v != "up":
            self.complain(e, "uses a coder that was not set up" if v is None else "uses a coder that is gone")

    def end(self, l, s, e):
        v = self.life(s).get(l)
        if v != "up":
            self.complain(e, "ends a coder that was not set up" if v is None else "ends a coder twice, or after its memory is gone")
        self.log(s, "life", l, "down")

    def freed(self, l, s, e):
        if self.life(s).get(l) == "up":
            self.complain(e, "gives up the memory of a coder that was not ended")
        self.log(s, "life", l, "down")

    def z_init(self, n, st, args, e):
        l = self.target(args[0], st)
        a = [self.n_of(x, st) if isinstance(x, (Lin, Ref)) else x for x in args[1:]]
        bits = a[2] if n == "deflateInit2_" else a[0] if n == "inflateInit2_" else Lin(15)
        if not isinstance(bits, Lin) or not bits.const:
            raise AnalysisError("the format of a coder is not known")
        if n.startswith("deflate") and not 25 <= bits.c <= 31:
            self.complain(e, "sets the compressor up for another format than gzip (window bits %d)" % bits.c)
        if n.startswith("inflate") and bits.c not in (16, 31, 32, 47):
            self.complain(e, "sets the decompressor up for another format, or a smaller window, than gzip's (window bits %d)" % bits.c)
        s, f = st.copy(), st.copy()
        self.log(s, "life", l, "up")
        self.log(f, "init", "failed")
        return [(s, Lin(self.k["Z_OK"])), (f, Lin(-4))]

    def brotli(self, n, st, args, e):
        k = self.k
        if n in ("BrotliEncoderCreateInstance", "BrotliDecoderCreateInstance"):
            s, f = st.copy(), st.copy()
            l = (("made", self.fresh("o")),)
            self.log(s, "life", l, "up")
            self.log(f, "init", "failed")
            return [(s, Ptr(l)), (f, Ptr(None))]
        if n in ("BrotliEncoderDestroyInstance", "BrotliDecoderDestroyInstance"):
            s = st.copy()
            p = self.own(args[0], st)
            if p.loc is not None:
                self.end(p.loc, s, e)
            return [(s, VOID)]
        if n == "BrotliEncoderIsFinished":
            self.alive(self.target(args[0], st), st, e)
            return [(st, Lin(1 if any(x[0] == "code" and x[3] == "end" for x in self.trace(st)) else 0))]
        if n == "BrotliEncoderHasMoreOutput":
            last = [x for x in self.trace(st) if x[0] == "code"]
            if not last or not last[-1][5] or last[-1][3] == "end":
                return [(st, Lin(0))]
            raise AnalysisError("whether the encoder has more output")
        if n in ("BrotliEncoderCompressStream", "BrotliDecoderDecompressStream"):
            self.alive(self.target(args[0], st), st, e)
            way, op = "out", "process"
            a = args[1:]
            if n.startswith("BrotliEnc"):
                way = "in"
                v = self.n_of(a[0], st)
                op = self.op_of(v, {k["B_FINISH"]: "finish", k["B_FLUSH"]: "flush", k["B_PROCESS"]: "process", 3: "meta"})
                if op == "meta":
                    raise AnalysisError("metadata is written")
                a = a[1:]
            ls = [self.target(x, st) for x in a[:4]]
            nn, ip, m, o = [self.at(l, st) for l in ls]
            ip, o = self.raw(ip, st), self.raw(o, st)
            out = []
            for s, res, c, g in self.code(st, e, way, op, ip, self.n_of(nn, st), o, self.n_of(m, st)):
                s.mem[ls[0]], s.mem[ls[2]] = nn - c, m - g
                if isinstance(ip, Ptr) and ip.loc is not None:
                    s.mem[ls[1]] = Ptr(ip.loc, (ip.off or Lin(0)) + c)
                if isinstance(o, Ptr) and o.loc is not None:
                    s.mem[ls[3]] = Ptr(o.loc, (o.off or Lin(0)) + g)
                if way == "in":
                    out.append((s, Lin(0 if res in ("bad1", "bad2") else 1)))
                    continue
                if res in ("bad1", "bad2"):
                    out.append((s, Lin(k["B_ERROR"])))
                elif res == "end":
                    out.append((s, Lin(k["B_SUCCESS"])))
                elif res == "more":
                    out.append((s, Lin(k["B_MORE_INPUT"])))
                elif not self.entails(s, nn - c):
                    out.append((s, Lin(k["B_MORE_OUTPUT"])))
                else:
                    out.append((s, Lin(k["B_MORE_INPUT"])))
                    if self.entails(s, m - g):
                        t = s.copy()
                        out.append((t, Lin(k["B_MORE_OUTPUT"])))
            return out
        raise AnalysisError("%s()" % n)


def parts(prog, cls):
    own = [f for f in prog.fns.values() if sq(unq(f.get("rec") or "")).startswith("web::middleware::detail::" + cls)
           and f.get("body") is not None]
    own = [f for f in own if sq(unq(f["rec"])).split("::")[-1].split("<")[0] == cls or "::" + cls + "<" in f["rec"]]
    rd = [f for f in own if f.get("n") == "async_read_some"]
    ct = [f for f in own if f.get("kind") == "ctor" and len(f["params"]) == 1 and not (cls in f["params"][0]["t"])]
    if len(rd) != 1 or not ct:
        raise facts.AnalysisError("%s is not as known" % cls)
    return rd[0], ct[0]


def start(it, f, st):
    """states after construction; a coder that could not be set up must not be left behind"""
    it.lty[SELF] = unq(f["rec"])
    args = []
    for p in f["params"]:
        l = (("ext", "next"),)
        it.lty[l] = unq(p["t"]).rstrip("& ")
        st.mem[l] = Tok("obj", "next")
        args.append(Ref(l))
    it.run_setup()
    it.run(f, args, st, SELF)
    it.bad = []
    return construct(it, f, args, st)


def course(rep, prog, cls, chunks, calls):
    way, lib = CODERS[cls]
    rd, ct = parts(prog, cls)
    it = Coder(prog, rep)
    it.chunks = lambda: chunks
    it.limit = calls
    n = 0
    work = []
    for s, _ in start(it, ct, St()):
        if any(x[:2] == ("init", "failed") for x in it.trace(s)):
            rep.violation(cls + ":init", ct, None, "a stream is left with a coder that could not be set up")
            continue
        work.append((s, 0))
    seen = 0
    while work:
        s0, k = work.pop()
        it.log(s0, "mark")
        at = len(it.trace(s0))
        for s, v in it.run(rd, [], s0, SELF)[0]:
            n += 1
            o = it.outcome(v, s)
            tr = it.trace(s)
            now = tr[at:]
            code = [x for x in tr if x[0] == "code"]
            mine = [x for x in now if x[0] == "code"]
            first = len(code) - len(mine)
            reads = [x for x in now if x[0] == "read"]
            ended = any(x[3] == "end" for x in code)
            src = [x for x in tr if x[0] == "read"]
            fault = [x for x in reads if x[1] == "error"]
            bad = [x for x in mine if x[3] in ("bad1", "bad2")]
            if fault:
                if o != ("error", ("up", fault[0][2])):
                    rep.violation(cls + ":upstream", rd, None, "the error of the stream underneath is not given: %r" % (o,))
                continue
            if bad:
                if o[0] != "error" or not it.is_error(o[1]):
                    rep.violation(cls + ":coder", rd, None, "gives %r although the coder failed" % (o,))
                continue
            if o[0] == "error":
                rep.violation(cls + ":fails", rd, None, "fails (%r) although nothing did: %s" % (o[1], words(now)))
                continue
            if o[0] == "end":
                seen += 1
                if not src or src[-1][1] != "end":
                    rep.violation(cls + ":early", rd, None, "ends before the stream underneath")
                if way == "in" and not ended:
                    rep.violation(cls + ":unfinished", rd, None, "ends although the compressed data are not complete: %s" % words(tr))
                if way == "out" and not ended and code and code[-1][5]:
                    rep.violation(cls + ":pending", rd, None, "ends although the coder may have had more to give: %s" % words(tr))
                if mine:
                    rep.violation(cls + ":lost", rd, None, "what the coder put out before the end is lost: %s" % words(now))
                continue
            if o[0] != "bytes":
                raise facts.AnalysisError("what a read gives is not known")
            if reads and reads[-1][1] == "end" and all(x[1] == "past" for x in mine) and (way == "out" or any(x[3] == "end" for x in code)):
                rep.violation(cls + ":endless", rd, None, "gives bytes, and not the end, although all there was has been given")
            want = tuple((("out", first + i), Lin(0), x[4]) for i, x in enumerate(mine))
            r = it.same(s, o[1], want)
            if r is None:
                raise facts.AnalysisError("the bytes a read gives are not known")
            if r is False:
                rep.violation(cls + ":bytes", rd, None, "gives %r of what the coder put out, %r" % (o[1], want))
            if not reads:
                rep.violation(cls + ":noread", rd, None, "gives bytes without reading the stream underneath")
                continue
            fed = Lin(0)
            for x in code:
                fed = fed + x[2]
            have = it.total(it.chunks_of(s))
            if not (way == "out" and ended) and not it.entails(s, have - fed):
                rep.violation(cls + ":input", rd, None, "gives up bytes of its input that the coder did not take: %s" % words(now))
            if reads[-1][1] == "end" and not mine and way == "in":
                rep.violation(cls + ":finish", rd, None, "does not finish the compressed data at the end: %s" % words(tr))
            if k < 4:
                work.append((s, k + 1))
    if not seen and not it.bad:
        raise facts.AnalysisError("no course to the end is known")
    rep.analysed(rd)
    rep.analysed(ct)
    rep.obligation("courses of coded streams compared", n)
    flush(rep, it, cls)


def words(tr):
    return ", ".join("a read: %s" % x[1] if x[0] == "read" else "a call: %s%s" % (x[3], " (output filled)" if x[5] else "")
                     for x in tr if x[0] in ("read", "code"))


def handles(prog, it, cls, rec, st, l, what):
    """an object of a class that owns a coder: one that is set up ("live"), or none"""
    fs = [f for f in members_of(prog, rec) if "*" in f["t"] or "unique_ptr" in f["t"]]
    if len(fs) != 1:
        raise facts.AnalysisError("what %s owns is not known" % cls)
    m = l + (("f", fs[0]["n"]),)
    it.lty[m] = unq(fs[0]["t"])
    h = None
    if what == "live":
        h = (("made", l[0][1]),)
        it.log(st, "life", h, "up")
    st.mem[m] = Ptr(h)
    return h, m


def members_of(prog, rec):
    r = prog.rec_by_type.get(rec) or {}
    out = list(r.get("fields", []))
    for b in r.get("bases", []):
        out += members_of(prog, unq(b["t"] if isinstance(b, dict) else b))
    return out


def ownership(rep, prog):
    """whatever is moved to where: every coder is ended exactly once, by the last object that has it"""
    n = 0
    for cls in NATIVE:
        rec = "fitoria::web::middleware::detail::" + cls
        fs = [f for f in prog.fns.values() if unq(f.get("rec") or "") == rec]
        dt = [f for f in fs if f.get("kind") == "dtor" and f.get("body") is not None]
        mv = [f for f in fs if len(f["params"]) == 1 and cls in f["params"][0]["t"] and "&&" in f["params"][0]["t"] and f.get("body") is not None
              and (f.get("n") == "operator=" or f.get("kind") == "ctor")]
        if len(dt) != 1:
            raise facts.AnalysisError("%s has no destructor that is known" % cls)
        A, B = (("own", "a"),), (("own", "b"),)
        for f in mv:
            assign = f.get("n") == "operator="
            for a in ("live", "none") if assign else ("new",):
                for b in ("live", "none", "self") if assign else ("live", "none"):
                    it = Coder(prog, rep)
                    st = St()
                    it.lty[A] = it.lty[B] = rec
                    hs = []
                    if a != "new":
                        hs.append(handles(prog, it, cls, rec, st, A, a)[0])
                    if b != "self":
                        hs.append(handles(prog, it, cls, rec, st, B, b)[0])
                    mb = handles(prog, Coder(prog), cls, rec, St(), A, "none")[1]
                    src = A if b == "self" else B
                    it.run_setup()
                    it.frames, it.rets, it.tc = it.frames[:1], [[]], [[]]
                    if assign and f.get("defaulted"):
                        sts = it.memberwise(f, f, A, src, st, None, True)
                    elif assign:
                        sts = it.run(f, [Ref(src)], st, A)[0]
                    else:
                        e = {"k": "CXXConstructExpr", "t": rec, "cls": rec, "args": [{"t": f["params"][0]["t"], "lv": 2}], "l": f["l"]}
                        it.run_frames()
                        sts = it.call_body(f, A, [Ref(src)], st, e, True)
                    what = "%s of a %s from %s" % (f["n"], cls, {"live": "another", "none": "an empty one", "self": "itself"}[b])
                    for s, _ in sts:
                        n += 1
                        if b == "live":
                            p = s.mem.get(mb)
                            if not isinstance(p, Ptr):
                                raise facts.AnalysisError("what a %s owns after a move is not known" % cls)
                            if p.loc != (("made", "b"),):
                                rep.violation(cls + ":moved", f, None, "after %s, it does not have the coder of the other" % what)
                        ends = [s]
                        for l in (A,) if b == "self" else (A, B):
                            ends = [z for y in ends for x, _ in it.run(dt[0], [], y, l)[0] for z in it.free_member(x, l, mb, dt[0])]
                        for y in ends:
                            for h, v in it.life(y).items():
                                if v == "up":
                                    rep.violation(cls + ":leak", f, None, "after %s and the end of both, a coder is never ended" % what)
                    rep.analysed(f)
                    flush(rep, it, cls)
        rep.analysed(dt[0])
    rep.obligation("moves of coders compared", n)


PARTS = {"ownership": ownership}
for _c in CODERS:
    PARTS[_c + ":1"] = lambda rep, prog, c=_c: course(rep, prog, c, 1, 3)
    PARTS[_c + ":2"] = lambda rep, prog, c=_c: course(rep, prog, c, 2, 2)


def main(rep):
    prog = facts.load("coders")
    rep.soft = True
    report.parallel(rep, lambda r, j: PARTS[j](r, prog), list(PARTS))
    rep.require("courses", sum(n for k, n in rep.obl if "compared" in k), 20)


if __name__ == "__main__":
    report.run("C18", "abstract interpretation of the coding streams over the contract of one library call",
               "every byte is handed to the coder once, in order, and all it puts out is given, once, in order, up to its end", main)
