"""C01/C02: base64 encoder and decoder against RFC 4648, for every byte string, every
chunking and every byte type: abstract interpretation with a bit-provenance domain over
the product of the codec object and the reference transducer."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import facts  # noqa
import report  # noqa
from absint import *  # noqa
from facts import AnalysisError

A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
ALPHA = {"standard_alphabet": A + "+/", "url_alphabet": A + "-_"}
THIS = (("ext", "codec"),)
IN = (("ext", "IN"),)
OUT = (("ext", "OUT"),)
GI, GO = (("ext", "ghost_in"),), (("ext", "ghost_out"),)


def rename_bits(b, f):
    if isinstance(b, int):
        return b
    s, tt = b
    if s == "app":
        v, j = tt
        return (s, (rename(v, f), j))
    if s == "x":
        return (s, (tt[0], rename_bits(tt[1], f), rename_bits(tt[2], f)))
    return (f(s), tt)


def rename(v, f):
    if isinstance(v, U):
        return U(f(v.s), v.m)
    if isinstance(v, Bits):
        return Bits([rename_bits(b, f) for b in v.b])
    if isinstance(v, App):
        return App(v.tab, rename(v.idx, f))
    return v


def rename_state(s, f):
    for k, v in list(s.mem.items()):
        w = rename(v, f)
        if w is not v:
            s.mem[k] = w
    nd = {}
    for k, d in s.dom.items():
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "B":
            n = f(k[1])
            if n == "old":
                continue
            k = ("B", n)
        nd[k] = d
    s.dom = nd


def pname(i):
    return "p%d" % i


class Codec(Interp):
    """common part: byte input stream IN, byte output stream OUT, ghost cursors"""

    def __init__(self, prog, rep, what):
        super().__init__(prog)
        self.rep, self.what = rep, what
        self.lty[GI] = self.lty[GO] = "unsigned long"

    def bad(self, key, msg, node=None):
        if getattr(self, "quiet", 0):
            return
        fn = self.frames[-1].fn if self.frames else None
        self.rep.violation("%s/%s" % (self.what, key), fn if fn and fn.get("file") else None,
                           node.get("l") if node else None, "%s: %s" % (self.what, msg))

    def discrete(self, loc, v):
        if isinstance(v, (U, Bits, App)):
            return True
        if loc[:1] == THIS and isinstance(v, Lin) and v.const:
            return True
        return super().discrete(loc, v)

    def hook_index(self, base, idx, st, node):
        n = self.table_size(base)
        if n is None:
            return
        if not getattr(self, "quiet", 0):
            self.rep.counts["table lookups"] = self.rep.counts.get("table lookups", 0) + 1
        if not self.in_range(idx, n, st):
            self.bad("index", "lookup in a table of %d entries with an index that can lie outside "
                     "it (input byte widened with its sign, or unmasked bits)" % n, node)

    def byte_sym(self, st, ty):
        """next unread input byte becomes symbol p<k>"""
        k = st.x["P"]
        st.x["P"] = k + 1
        self.accept(st, pname(k))
        u = U(pname(k), tuple(wrap(i, ty) if int_type(ty) else i for i in range(256)))
        return u

    def accept(self, st, s):
        pass

    def hook_load(self, loc, ty, st):
        if loc[:1] == IN and len(loc) == 2 and loc[1][0] == "i":
            i = loc[1][1]
            cur = st.mem[GI]
            if self.entails(st, i - cur) and self.entails(st, cur - i):
                st.mem[GI] = cur + 1
                v = self.byte_sym(st, ty)
                st.mem[loc] = v
                return v
            self.bad("order", "reads an input position other than the next unread one")
            return self.mk(self.fresh("stray"), ty)
        return None

    def hook_store(self, loc, v, st, node):
        if loc[:1] == OUT and len(loc) == 2 and loc[1][0] == "i":
            i = loc[1][1]
            cur = st.mem[GO]
            if self.entails(st, i - cur) and self.entails(st, cur - i):
                st.mem[GO] = cur + 1
                if not getattr(self, "quiet", 0):
                    self.rep.counts["output writes"] = self.rep.counts.get("output writes", 0) + 1
                self.emit(v, st, node)
            else:
                self.bad("outpos", "writes an output position other than the next free one", node)
            return True
        return False

    def loop_dom(self, st):
        return {k: v for k, v in st.dom.items() if isinstance(k, tuple) and k[0] == "B"}

    def canon_loop(self, st, entry):
        st = st.copy()
        self.roll(st)
        for k in [k for k in st.mem if k[:1] == IN]:
            del st.mem[k]
        return st


class Enc(Codec):
    """x: P = bytes of the current group consumed, K = symbols of it emitted"""

    def setup(self, alpha):
        self.alpha = ALPHA[alpha]

    def roll(self, st):
        while st.x["P"] >= 3 and st.x["K"] >= 4:
            def f(s):
                if isinstance(s, str) and s.startswith("p"):
                    n = int(s[1:])
                    return pname(n - 3) if n >= 3 else "old"
                return s
            rename_state(st, f)
            st.x["P"] -= 3
            st.x["K"] -= 4

    def group_bits(self, k):
        """provenance of 6-bit symbol k of the group, lsb first"""
        out = []
        for j in range(6):
            pos = k * 6 + (5 - j)          # bit position from the start of the group
            out.append((pname(pos // 8), 7 - pos % 8))
        return out

    def emit(self, v, st, node):
        k, P = st.x["K"], st.x["P"]
        st.x["K"] = k + 1
        fin = st.x.get("fin")
        total = P * 8
        g = self.group_bits(k % 4)
        if k >= 4:
            g = [(pname(int(s[1:]) + 3 * (k // 4)), b) for s, b in g]
        need = k * 6 + 6
        nsym = -(-total // 6)
        if need > total and not fin:
            self.bad("early", "emits symbol %d of a group after only %d of its bytes" % (k + 1, P), node)
            return
        if k >= nsym:
            if not st.x.get("pad") or k >= 4 * (-(-P // 3)):
                self.bad("extra", "emits more characters than the message has", node)
            elif not (isinstance(v, Lin) and v.const and v.c == ord("=")):
                self.bad("padchar", "final quantum is not padded with '='", node)
            return
        exp = []
        for s, b in g:
            if int(s[1:]) >= P:
                exp.append(0)
            else:
                exp.append((s, sum(1 << i for i in range(256) if i >> b & 1)))
        if isinstance(v, App):
            idx = v.idx.b
            tab = None
            for vv in self.p.vars.get(v.tab, []):
                t = vv.get("val")
                while isinstance(t, list) and len(t) == 1 and isinstance(t[0], list):
                    t = t[0]
                tab = t
            ok = tab is not None and all(x == 0 for x in idx[6:]) and list(idx[:6]) == exp
            ok = ok and [chr(int(x)) for x in tab[:64]] == list(self.alpha)
        elif isinstance(v, U) or (isinstance(v, Lin) and v.const):
            # symbol depending on a single byte: compare extensionally
            ss = set(x[0] for x in exp if x != 0)
            ok = len(ss) <= 1
            if ok:
                s0 = ss.pop() if ss else None
                ok = isinstance(v, U) and v.s == s0
                if ok:
                    for i in range(256):
                        n = 0
                        for j, x in enumerate(exp):
                            if x != 0 and (x[1] >> i) & 1:
                                n |= 1 << j
                        if v.m[i] & 255 != ord(self.alpha[n]):
                            ok = False
                            break
        else:
            ok = False
        if not ok:
            self.bad("symbol%d" % k, "output character %d of a group is not the RFC 4648 symbol of "
                     "input bits %d..%d" % (k + 1, k * 6, k * 6 + 5), node)


class Dec(Codec):
    """x: P sextets accepted in the group, K bytes emitted, ph: run/pad1/end/err"""

    def setup(self, alpha):
        self.alpha = ALPHA[alpha]
        self.val = {ord(c): i for i, c in enumerate(self.alpha)}

    def roll(self, st):
        while st.x["P"] >= 4 and st.x["K"] >= 3:
            def f(s):
                if isinstance(s, str) and s.startswith("p"):
                    n = int(s[1:])
                    return pname(n - 4) if n >= 4 else "old"
                return s
            rename_state(st, f)
            st.x["P"] -= 4
            st.x["K"] -= 3

    def emit(self, v, st, node):
        k, P = st.x["K"], st.x["P"]
        if st.x["ph"] != "run":
            self.bad("afterend", "produces output after padding or an error", node)
            return
        st.x["K"] = k + 1
        if k * 8 + 8 > P * 6:
            st.x["K"] = k
            self.bad("early", "produces byte %d of a group after only %d characters" % (k + 1, P), node)
            return
        w = self.bits_of(v, 8, st)
        if w is None:
            self.bad("byte%d" % k, "output byte is not built from the input characters", node)
            return
        for j in range(8):
            pos = k * 8 + (7 - j)
            s, b = pname(pos // 6), 5 - pos % 6
            dom = st.dom.get(("B", s), frozenset(range(256)))
            x = w.b[j]
            if not all(c in self.val for c in dom):
                self.bad("accept", "uses a character outside the alphabet as data", node)
                return
            want = 0
            for c in dom:
                if self.val[c] >> b & 1:
                    want |= 1 << c
            dm = sum(1 << c for c in dom)
            if isinstance(x, int):
                got = dm if x else 0
            elif x[0] == s:
                got = x[1] & dm
            else:
                got = None
            if got != want:
                self.bad("byte%d" % k, "bit %d of output byte %d of a group is not bit %d of "
                         "character %d" % (j, k + 1, b, pos // 6 + 1), node)
                return

    # one character consumed: called by the client with every resulting state
    def classify(self, st, s):
        """reference transition on the (refined) domain of the just-read character;
        returns the expected phase or None when the domain mixes classes"""
        dom = st.dom.get(("B", s), frozenset(range(256)))
        ph, P = st.x["ph"], st.x["P"] - 1
        inal = [c for c in dom if c in self.val]
        if ph == "err":
            return "err"
        if ph == "run":
            if len(inal) == len(dom):
                return "run"
            if not inal:
                if dom == frozenset([61]) and P % 4 in (2, 3):
                    return "pad1" if P % 4 == 2 else "end"
                if 61 not in dom or P % 4 in (0, 1):
                    return "err"
            return None
        if ph == "pad1":
            if dom == frozenset([61]):
                return "end"
            if 61 not in dom:
                return "err"
            return None
        return "err"


def codec_fns(prog, cls, name, nparams):
    return [f for f in prog.find(cls + "::" + name) if len(f["params"]) == nparams]


def client_frame(it):
    it.frames = [Frame("client", {"full": "client", "file": "", "ret": "void"}, None, {}, 0)]
    it.rets = [[]]
    it.tc = [[]]


def objkey(st):
    return (frozenset((k, v) for k, v in st.mem.items() if k[:1] == THIS),
            frozenset(st.dom.items()), frozenset(st.x.items()))


def strip(st):
    s = St()
    s.mem = {k: v for k, v in st.mem.items() if k[:1] == THIS}
    s.src = {k: v for k, v in st.src.items() if k[:1] == THIS}
    s.dom = {k: v for k, v in st.dom.items() if isinstance(k, tuple) and k[0] == "B" and k[1] != "old"}
    s.x = dict(st.x)
    s.mem[GI], s.mem[GO] = Lin(0), Lin(0)
    return s


def elem_type(f):
    return unq(f["params"][0]["t"].rstrip("* "))


def by_targ(fs, t):
    return [f for f in fs if f["targs"] and unq(f["targs"][0].rstrip("* ")) == t]


N = "n"
E = {"k": "client", "l": 0, "t": "void", "args": []}


def run_range(it, f, st):
    s = st.copy()
    it.symty[N] = "unsigned long"
    s.cons = s.cons + (sym(N) - (1 << 40),)
    args = [Ptr(IN, Lin(0)), Ptr(IN, sym(N)), Ptr(OUT, Lin(0))]
    return it.call_body(f, THIS, args, s, E)


def check_out_ret(it, s, v, f):
    go = s.mem[GO]
    if isinstance(v, Ptr) and v.loc == OUT:
        d = (v.off or Lin(0)) - go
        if it.entails(s, d) and it.entails(s, -d):
            return
    it.frames.append(Frame("x", f, None, {}, 0))
    it.bad("ret", "does not return the position just after the last character written")
    it.frames.pop()


def check_codec(rep, prog, cls, alpha, byte, enc):
    base = "encoding::base64::basic_" + ("encoder" if enc else "decoder")
    it = (Enc if enc else Dec)(prog, rep, "%s<%s>(%s)" % (base.split("::")[-1], alpha, byte))
    it.setup(alpha)
    client_frame(it)
    pick = lambda n, k: [f for f in codec_fns(prog, base, n, k)
                         if alpha in f["rec"] and f["targs"]]
    nm = "encode" if enc else "decode"
    single = by_targ(pick(nm + "_next", 2), byte)
    rng = by_targ(pick(nm + "_next", 3), byte)
    whole = by_targ(pick(nm, 3), byte)
    if not (len(single) == len(rng) == len(whole) == 1):
        raise AnalysisError("%s: overloads of %s_next/%s for %s not found" % (base, nm, nm, byte))
    single, rng, whole = single[0], rng[0], whole[0]
    rest = None
    if enc:
        rest = pick("encode_rest", 1)[0]
    for f in (single, rng, whole, rest):
        if f:
            rep.analysed(f)
    # initial objects: every constructor of the class
    inits = []
    rec = prog.rec_by_type[single["rec"]]
    s0 = St()
    s0.x = {"P": 0, "K": 0}
    if enc:
        s0.x["pad"] = True
        ctors = [f for f in prog.by_qn[base + "::" + base.split("::")[-1]]
                 if f["rec"] == single["rec"] and f.get("kind") == "ctor" and not f.get("ctor") in
                 ("copy", "move")]
        for c in ctors:
            if not c["params"]:
                inits += [s for s, _ in it.run_inits(rec, c, THIS, s0.copy(), E)]
            elif len(c["params"]) == 1:
                for pv in (0, 1):
                    s = s0.copy()
                    s.x["pad"] = bool(pv)
                    inits += [t for t, _ in it.call_body(c, THIS, [Lin(pv)], s, E, True)]
    else:
        s0.x["ph"] = "run"
        inits += [s for s, _ in it.run_inits(rec, None, THIS, s0.copy(), E)]
    if not inits:
        raise AnalysisError("no constructor found for " + base)
    seen, work = {}, [strip(s) for s in inits]
    nstates = 0
    initkeys = set(objkey(strip(s)) for s in inits)
    while work:
        st = work.pop()
        k = objkey(st)
        if k in seen:
            continue
        seen[k] = st
        nstates += 1
        if nstates > 400:
            raise AnalysisError("%s: state space does not close" % base)
        if enc:
            work += enc_ops(it, st, single, rng, whole, rest, byte)
        else:
            work += dec_ops(it, st, single, rng, whole, byte, base, prog)
    rep.counts["product states"] = rep.counts.get("product states", 0) + nstates
    rep.items.append("%s: %d reachable product states" % (it.what, nstates))
    if it.tc[-1] and enc:
        it.bad("throw", "encoding can throw")


def enc_ops(it, st, single, rng, whole, rest, byte):
    out = []
    # one byte
    s = st.copy()
    v = it.byte_sym(s, byte)
    for t, r in it.call_body(single, THIS, [v, Ptr(OUT, Lin(0))], s, E):
        check_out_ret(it, t, r, single)
        it.roll(t)
        out.append(strip(t))
    # any number of bytes
    for t, r in run_range(it, rng, st):
        check_out_ret(it, t, r, rng)
        d = t.mem[GI] - sym(N)
        if not (it.entails(t, d) and it.entails(t, -d)):
            it.frames.append(Frame("x", rng, None, {}, 0))
            it.bad("consume", "returns without having consumed the whole range")
            it.frames.pop()
        it.roll(t)
        out.append(strip(t))

    def finish(t, f):
        P, K = t.x["P"], t.x["K"]
        want = (4 * (-(-P // 3)) if t.x["pad"] else -(-P * 8 // 6))
        if K != want:
            it.frames.append(Frame("x", f, None, {}, 0))
            it.bad("final%d" % P, "message ending with %d byte(s) in its last group ends with %d "
                   "character(s), RFC 4648 requires %d (padding %s)"
                   % (P, K, want, "on" if t.x["pad"] else "off"))
            it.frames.pop()
        t = t.copy()
        rename_state(t, lambda s: "old" if isinstance(s, str) and s.startswith("p") else s)
        t.x.update(P=0, K=0)
        t.x.pop("fin", None)
        return strip(t)
    s = st.copy()
    s.x["fin"] = True
    for t, r in it.call_body(rest, THIS, [Ptr(OUT, Lin(0))], s, E):
        check_out_ret(it, t, r, rest)
        out.append(finish(t, rest))
    return out + whole_enc(it, st, whole, rest, finish)


def whole_enc(it, st, whole, rest, finish):
    out = []
    saved = it.hook_call

    def hook(fn, s, this, args, e):
        if fn["id"] == rest["id"]:
            s.x["fin"] = True
        return None
    it.hook_call = hook
    # the final-quantum permission is granted when encode_rest is entered, or when the whole
    # input has been consumed
    for t, r in run_range(it, whole, st):
        check_out_ret(it, t, r, whole)
        d = t.mem[GI] - sym(N)
        if not (it.entails(t, d) and it.entails(t, -d)):
            it.bad("consume", "encode returns without having consumed the whole range")
        it.roll(t)
        out.append(finish(t, whole))
    it.hook_call = saved
    return out


def dec_ops(it, st, single, rng, whole, byte, base, prog):
    out = []
    is_error = [f for f in prog.find(base + "::is_error") if f["rec"] == single["rec"]][0]
    is_done = [f for f in prog.find(base + "::is_done") if f["rec"] == single["rec"]][0]

    def q(f, t):
        r = it.call_body(f, THIS, [], t, E)
        vals = set(v for _, v in r)
        return vals.pop() if len(vals) == 1 else None

    def check_status(t):
        ph, P, K = t.x["ph"], t.x["P"], t.x["K"]
        e = q(is_error, t)
        if e != (TRUE if ph == "err" else FALSE):
            it.frames.append(Frame("x", is_error, None, {}, 0))
            it.bad("is_error/%s%d" % (ph, P), "error status is %s after input the reference %s" % (
                e, "rejects" if ph == "err" else "accepts"))
            it.frames.pop()
        if ph == "err" or (ph == "run" and P % 4 == 1):
            want = FALSE
        elif ph == "pad1":
            return      # a lone '=' where two are due: strictness left open
        else:
            want = TRUE
        d = q(is_done, t)
        if d != want:
            it.frames.append(Frame("x", is_done, None, {}, 0))
            it.bad("is_done/%s%d" % (ph, P), "completion status is %s where the reference says %s"
                   % (d, want))
            it.frames.pop()

    def settle(t, f, s_name):
        """one character was consumed: move the reference along"""
        ph = it.classify(t, s_name)
        P = t.x["P"] - 1
        if ph is None:
            it.frames.append(Frame("x", f, None, {}, 0))
            it.bad("class/%s%d" % (t.x["ph"], P), "treats characters of different classes (alphabet, "
                   "padding, other) alike")
            it.frames.pop()
            return None
        if ph != "run":
            # the character carried no data
            t.dom.pop(("B", s_name), None)
            rename_state(t, lambda s: "old" if s == s_name else s)
            t.x["P"] = P
        t.x["ph"] = ph
        if ph == "run":
            # every byte that is complete must have been produced
            if t.x["K"] != (t.x["P"] * 6) // 8:
                it.frames.append(Frame("x", f, None, {}, 0))
                it.bad("lag%d" % P, "a completed byte is not produced")
                it.frames.pop()
        it.roll(t)
        return t

    s = st.copy()
    name = pname(s.x["P"])
    v = it.byte_sym(s, byte)
    for t, r in it.call_body(single, THIS, [v, Ptr(OUT, Lin(0))], s, E):
        check_out_ret(it, t, r, single)
        t = settle(t.copy(), single, name)
        if t is not None:
            t = strip(t)
            check_status(t)
            out.append(t)
    check_status(st)
    return out + dec_range(it, st, rng, whole, settle, check_status, q, is_error, is_done, single)


def dec_range(it, st, rng, whole, settle, check_status, q, is_error, is_done, single):
    """range overloads: one abstract iteration per loop head; the reference is moved along at
    every point where the next character is about to be read and at the exits"""
    out = []
    saved_load, saved_canon = it.hook_load, it.canon_loop

    def flush(t, f):
        nm = t.x.get("open")
        if nm is None:
            return t
        t = t.copy()
        t.x.pop("open")
        return settle(t, f, nm)

    def canon(t, entry):
        t = t.copy()
        for k in [k for k in t.mem if k[:1] == IN]:
            del t.mem[k]
        r = flush(t, rng)
        if r is None:
            r = t
        it.roll(r)
        return r

    def load(loc, ty, t):
        if loc[:1] == IN and len(loc) == 2:
            if t.x.get("open"):
                nm = t.x.pop("open")
                settle(t, rng, nm)
            k = t.x["P"]
            v = saved_load(loc, ty, t)
            if t.x["P"] == k + 1:
                t.x["open"] = pname(k)
            return v
        return saved_load(loc, ty, t)
    it.hook_load, it.canon_loop = load, canon
    try:
        for t, r in run_range(it, rng, st):
            check_out_ret(it, t, r, rng)
            t2 = flush(t, rng)
            if t2 is None:
                continue
            d = t2.mem[GI] - sym(N)
            if not (it.entails(t2, d) and it.entails(t2, -d)) and t2.x["ph"] != "err":
                it.frames.append(Frame("x", rng, None, {}, 0))
                it.bad("consume", "stops before the end of the input although it is valid so far")
                it.frames.pop()
            t2 = strip(t2)
            check_status(t2)
            out.append(t2)
        # decode(): a fresh decoder; succeeds exactly when the message is complete
        if st.x["P"] > 1 or st.x["ph"] != "run":
            return out
        it.tc = [[]]
        s0 = st.copy()
        for t, r in run_whole(it, whole, s0):
            check_out_ret(it, t, r, whole)
            t2 = flush(t, whole)
            if t2 is None:
                continue
            ph, P = t2.x["ph"], t2.x["P"]
            d = t2.mem[GI] - sym(N)
            done = it.entails(t2, d) and it.entails(t2, -d)
            if ph == "err" or (ph == "run" and P % 4 == 1) or not done:
                it.frames.append(Frame("x", whole, None, {}, 0))
                it.bad("whole-accept", "one-shot decode returns normally for malformed or truncated input")
                it.frames.pop()
        for t, x in it.tc[-1]:
            t2 = flush(t, whole)
            if t2 is None:
                continue
            ph, P = t2.x["ph"], t2.x["P"]
            if ph in ("run", "end") and not (ph == "run" and P % 4 == 1):
                it.frames.append(Frame("x", whole, None, {}, 0))
                it.bad("whole-reject", "one-shot decode rejects well-formed input")
                it.frames.pop()
        it.tc = [[]]
    finally:
        it.hook_load, it.canon_loop = saved_load, saved_canon
    return out


def run_whole(it, f, st):
    s = st.copy()
    s.x = {"P": 0, "K": 0, "ph": "run"}
    s.dom = {}
    rename_state(s, lambda x: "old" if isinstance(x, str) and x.startswith("p") else x)
    return run_range(it, f, s)


JOBS = [(al, b) for al in ("standard_alphabet", "url_alphabet")
        for b in ("char", "unsigned char", "signed char", "std::byte")]


def main_enc(rep):
    prog = facts.load("core")
    report.parallel(rep, lambda r, j: check_codec(r, prog, None, j[0], j[1], True), JOBS)
    done(rep, 8 * 6)


def main_dec(rep):
    prog = facts.load("core")
    report.parallel(rep, lambda r, j: check_codec(r, prog, None, j[0], j[1], False), JOBS)
    done(rep, 8 * 5)


def done(rep, least):
    for k, v in sorted(rep.counts.items()):
        rep.obligation(k, v)
    rep.require("product states checked", rep.counts.get("product states", 0), least)


if __name__ == "__main__":
    if sys.argv[1] == "enc":
        report.run("C01", "abstract interpretation, bit-provenance domain",
                   "every character written by the encoder is the RFC 4648 symbol of the input bits "
                   "at its position, for every reachable (encoder state x pending bytes) pair", main_enc)
    else:
        report.run("C02", "abstract interpretation, byte-powerset and bit-provenance domains",
                   "every byte written by the decoder is the concatenation of the sextets of the "
                   "accepted characters; alphabet, padding and other characters are told apart in "
                   "every state; table lookups stay inside the table", main_dec)
