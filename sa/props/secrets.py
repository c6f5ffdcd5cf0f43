"""Secrets: wiped, not elidably; compared in constant time; never printed."""
import models as M
import mons
import terms as T
from checklib import settled
from engine import Monitor
from models import Outcome, fork
from mons import secret_in
from terms import C, ZERO
from . import check
from . import memory as MEM
from .core import ENGINE

G = MEM.G
HMAC_SIZE = 208


# -- wiping ---------------------------------------------------------------------------------

def touched(E, st, p, n, pred):
    """secret bytes in [p, p + n) (n None: in the whole object)"""
    ob = E.obj(st, p[1])
    off = E.constval(st, p[2])
    for o, l, v in ob.cells:
        if n is None or off is None or o < off + n and off < o + l:
            s = secret_in(v, pred)
            if s:
                return s
    if ob.base[0] not in ("zero", "undef", "wiped"):
        return pred(ob.base)
    return None


class Wiped(mons.Residue):
    """Residue, where only wipes which the compiler has to keep count"""

    def __init__(self, pred, sizes=None, hmac=False, args=()):
        self.taint = set()
        super().__init__(lambda k: "secret data" if mons.unstale(k) in self.taint else pred(k))
        self.sizes = sizes
        self.hmac = hmac
        self.args = args

    def start(self, E, st):
        E.secret = self.pred
        E.taint = self.taint
        E.keepdead = lambda st, o, ob: E.holds(ob) or self.hmac and any(
            k[0] == "hmac" and k[1][1] == o for k in st.x)

    def models(self, d):
        d = dict(d)

        def memset(E, st, I, a):
            p = E.toptr(a[0])
            n = M.cint(E, st, a[2])
            if p[1] != ("wild",) and E.constval(st, a[1]) is not None and \
                    touched(E, st, p, n, self.pred):
                # may be dropped when nothing reads the memory afterwards
                return Outcome(st, a[0])
            return M.m_memset(E, st, I, a)

        def wipe(E, st, I, a):
            p = E.toptr(a[0])
            E.cx.ob("wipes followed")
            n = M.cint(E, st, a[1])
            ln = a[1]
            if p[1] != ("wild",):
                if n is None and ln[0] == "o" and ln[1] == "strlen" and ln[3][0] == p and \
                        p[1][0] != "al":
                    # all of a string (in a local array, an earlier longer one may be left)
                    ob = E.obj(st, p[1])
                    st.mem[p[1]] = type(ob)(ob.size, ("zero",))
                    st.x.pop(("nv", p[1]), None)
                    return Outcome(st)
                if n is None and touched(E, st, p, None, self.pred):
                    return Outcome(st)
                k = ("hmac", p)
                if k in st.x and n is not None and n >= HMAC_SIZE:
                    st.x.pop(k)
                st.x.pop(("nv", p[1]), None)
            return M.m_memzero(E, st, I, a)
        d["memset"] = d["llvm.memset"] = memset
        d["bzero"] = lambda E, st, I, a: memset(E, st, I, [a[0], C(0, 32), a[1]])
        for n in ("insecure_memzero", "explicit_bzero"):
            d[n] = wipe
        return d

    def store(self, E, st, I, ptr, n, val):
        """an ordinary store of zero over a secret can be dropped by the compiler"""
        if I is None or I.op != "store" or I.volatile or E.constval(st, val) != 0:
            return
        p = E.toptr(ptr)
        if p[1][0] in ("al", "h") and E.constval(st, p[2]) is not None:
            s = touched(E, st, p, n, self.pred)
            if s:
                st.x[("nv", p[1])] = "S" + str(s)

    def scan(self, E, st, o, ob, what, where):
        super().scan(E, st, o, ob, what, where)
        if ("nv", o) in st.x:
            E.report(st, "secret left in memory", where, "%s goes out of use after %s in it was "
                     "overwritten by stores which the compiler may drop" %
                     (what, st.x[("nv", o)][1:]))
        if self.hmac:
            for k in st.x:
                if k[0] == "hmac" and k[1][1] == o:
                    E.report(st, "secret left in memory", where, "%s goes out of use with a "
                             "keyed MAC context in it" % what)

    def pre(self, E, st, I, fn, args):
        if fn in ("free", "realloc") and args[0][0] == "p":
            o = args[0][1]
            ob = st.mem.get(o)
            if ob is None and o[0] == "arg" and self.sizes:
                ob = E.obj(st, o)
            if ob is None:
                return
            if o[0] == "arg" and self.sizes:
                n = self.sizes.get(I.func.module.path, self.sizes.get(None))
                if isinstance(n, int):
                    n = ((0, n),)
                if n is not None and all(zeroed(ob, a, b) for a, b in n):
                    E.cx.ob("objects checked at end of life")
                    return
            self.scan(E, st, o, ob, "heap memory passed to free()", I)

    def ret(self, E, st, val):
        super().ret(E, st, val)
        for i, n in self.args:
            ob = E.obj(st, ("arg", i))
            E.cx.ob("contexts wiped by the function that ends their use")
            if wipedlen(ob) < n:
                E.report(st, "secret left in memory", E.entry.name, "argument %d is not wiped "
                         "over its %d bytes" % (i + 1, n))


def wipedlen(ob):
    """how many bytes from the start are zero"""
    pos = 0
    for o, l, v in sorted(ob.cells, key=lambda c: c[0]):
        if o > pos:
            break
        if v[0] == "c" and v[1] == 0:
            pos = max(pos, o + l)
        else:
            break
    return pos


def zeroed(ob, lo, hi):
    pos = lo
    for o, l, v in sorted(ob.cells, key=lambda c: c[0]):
        if o <= pos < o + l and v[0] == "c" and v[1] == 0:
            pos = o + l
    return pos >= hi


def tagged(*tags, args=(), globs=False):
    ts = set(tags)

    def pred(k):
        k = mons.unstale(k)
        t = mons.src_tag(k)
        if t is not None:
            return "the bytes of '%s'" % t if t in ts else None
        if k[0] == "digest" and "#" in ts:
            return "a hash of secret data"
        if k[0] == "init":
            b = k[1]
            if b[0] == "arg" and b[1] in args:
                return "the caller's secret"
            if b[0] == "g" and globs:
                return "secret module state"
        return None
    return pred


CORE_FNS = ("scryptenc_file", "scryptenc_buf", "scryptdec_buf", "scryptdec_file_prep",
            "scryptdec_file_copy", "scryptdec_file", "scryptenc_cpuperf")
PASS_FNS = ("readpass", "readpass_file", "passphrase_entry_readpass")
# hash functions: arguments with secrets, arguments wiped at the end
HASH_FNS = {"SHA256_Update": ((1,), ()), "SHA256_Final": ((), ((1, 104),)),
            "SHA256_Buf": ((0,), ()), "HMAC_SHA256_Init": ((1,), ()),
            "HMAC_SHA256_Update": ((1,), ()), "HMAC_SHA256_Final": ((), ((1, 208),)),
            "HMAC_SHA256_Buf": ((0, 2), ()), "PBKDF2_SHA256": ((0,), ())}


def rdrand(E, st, I, a):
    n = M.cint(E, st, a[1])
    s2 = fork(st)
    E.havoc_range(st, a[0], None if n is None else 4 * n, I, "entropy")
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, C(1, 32), "fail")]


def stream(E, st, I, a):
    E.havoc_range(st, a[0], 48, I, "keystream")
    return Outcome(st)


SYSTEM = {"entropy_read": M.m_entropy, "generate_seed_rdrand": rdrand}
STREAM = {"crypto_aesctr_stream": stream, "crypto_aesctr_aesni_stream": stream,
          "crypto_aesctr_arm_stream": stream}
# passphrase of any length; salt length, iterations and output length given
PBKDF2_ARGS = [[None, None, None, C(s, 64), C(c, 64), None, C(n, 64)]
               for s, c, n in ((32, 1, 64), (32, 1, 128), (1, 2, 33), (0, 3, 1), (64, 1, 0))]


def malloced(cx, fn, groups, mods):
    """sizes allocated by fn, by source file"""
    res = {}

    class S(Monitor):
        def post(self, E, st, I, f, a, ret, tag):
            if f in ("malloc", "calloc", "posix_memalign", "aligned_alloc") and a is not None \
                    and tag != "fail":
                n = E.constval(st, a[0] if f == "malloc" else a[-1] if f != "calloc" else
                               T.mul(a[0], a[1], 64))
                if n:
                    k = I.func.module.path
                    res[k] = min(n, res.get(k, n))
                    res[None] = min(n, res.get(None, n))
    cx.run(fn, M.models(*groups, drop=(fn,)), [S()],
           setup=lambda E, st: settled(E, st, mods or ("?",)), quiet=True)
    return res


def handed(cx, fn, arg, pred):
    """ranges of the object which fn returns through an argument that hold secrets"""
    res = set()

    class R(Monitor):
        def ret(self, E, st, val):
            o = st.mem.get(("arg", arg))
            for _, _, p in o.cells if o else ():
                ob = st.mem.get(p[1]) if p[0] == "p" else None
                for a, n, v in ob.cells if ob else ():
                    if secret_in(v, pred):
                        res.add((a, a + n))
    cx.run(fn, M.models(*G, drop=(fn,)), [R()], setup=lambda E, st: settled(E, st, ("?",)),
           quiet=True)
    cx.ob("parts of the decryption cookie that hold keys", len(res))
    return tuple(sorted(res))


def wiping(cx, fn, groups, mods, mon, args=None):
    if not cx.has(fn):
        return
    cx.ob("functions handling secrets")
    n = -1
    while n < len(mon.taint):
        n = len(mon.taint)
        cx.run(fn, mon.models(M.models(*groups, drop=(fn,))), [mon], args=args,
               setup=lambda E, st: settled(E, st, mods or ("?",)))


@check("P17", "path-sensitive lifetime analysis of secret bytes (provenance taint, wipe "
       "typestate at end of life)", ENGINE + """Every local variable, heap block and context
       that goes out of use on any path (return, free, failing or not) is checked for bytes
       that stem from derived keys, passphrases, keyed hash state, AES round keys or generator
       output; only wipes by insecure_memzero() (or explicit_bzero()) count, memset() and plain
       stores do not.""", configs=("native", "portable"))
def p17(cx):
    cx.rule("WIPE: no memory goes out of use while it holds key material, a passphrase, keyed "
            "hash or cipher state or generator output")
    key = tagged("dk", "dkf")
    for fn in CORE_FNS:
        wiping(cx, fn, G, (), Wiped(key, hmac=True))
    for fn in PASS_FNS:
        wiping(cx, fn, (M.UTIL,), (), Wiped(tagged("gets")))
    main(cx)
    wiping(cx, "scryptdec_file_cookie_free", G, (),
           Wiped(tagged(args=(0,)), sizes={None: handed(cx, "scryptdec_file_prep", 6, key)}))
    for fn, (sec, args) in HASH_FNS.items():
        for given in ([None] if fn != "PBKDF2_SHA256" else PBKDF2_ARGS):
            wiping(cx, fn, (M.TRANSFORM, M.UTIL), MEM.HASH,
                   Wiped(tagged("state", "schedule", "working", args=sec), args=args), given)
    # what a failed read of the system's entropy left behind is used for nothing
    wiping(cx, "crypto_entropy_read", (M.CRYPTO, M.UTIL, SYSTEM), (),
           Wiped(tagged("entropy", "#", globs=True), hmac=True))
    wiping(cx, "crypto_aes_key_expand", (M.UTIL,), MEM.AES, Wiped(tagged(args=(0,))))
    wiping(cx, "crypto_aesctr_buf", (M.UTIL, STREAM), MEM.AES, Wiped(tagged("keystream")))
    for a, f in (("crypto_aes_key_expand", "crypto_aes_key_free"),
                 ("crypto_aesctr_init", "crypto_aesctr_free")):
        if cx.has(a) and cx.has(f):
            sz = malloced(cx, a, (M.UTIL,), MEM.AES)
            wiping(cx, f, (M.UTIL,), MEM.AES, Wiped(tagged(args=(0,)), sizes=sz))
    cx.need("functions handling secrets", 20, "functions whose memory is followed")
    cx.need("objects checked at end of life", 200, "objects going out of use")
    cx.need("wipes followed", 20, "calls that wipe")


def main(cx):
    from . import cli
    for al in ((), ("-P",)):
        c = cli.Cli(al)
        w = Wiped(tagged("passwd"))
        n = -1
        while n < len(w.taint):
            n = len(w.taint)
            cx.run("main", w.models(c.models()), [w], setup=cli.start, unroll=2 + len(al))


# -- the wipe itself ------------------------------------------------------------------------

KEPT = ("explicit_bzero", "memset_s", "memset_explicit", "explicit_memset")


def volatile_ptr(cx):
    """loads of a writable, external function pointer nothing assigns to give its initial
    value; the compiler must not assume so when the load is volatile"""
    prog = cx.prog()
    stored = set()
    for f in prog.allfuncs:
        for I in f.insts:
            if I.op == "store" and I.ops[1][0] == "g":
                g = prog.resolve_global(f.module, I.ops[1][1])
                if g is not None:
                    stored.add(g.key)

    def load(E, st, I, p):
        p = E.toptr(p)
        if p[1][0] != "g" or p[2] != ZERO:
            return None
        g = E.gmap.get(p[1][1])
        if g is None or g.init is None or g.init[0] != "f":
            return None
        if g.key in stored:
            cx.violation("wipe function replaced", I, "the pointer to the wipe function is "
                         "assigned to elsewhere")
        if g.const:
            return None
        return E.cval(g.module, g.init)
    return load


class Zeroes(Monitor):
    """the buffer is zeroed, by stores the compiler has to keep"""

    def __init__(self, n):
        self.n = n

    def store(self, E, st, I, ptr, n, val):
        if I is not None and E.toptr(ptr)[1] == ("arg", 0):
            self.effect(E, st, I, I.op == "store" and I.volatile)

    def pre(self, E, st, I, fn, args):
        if fn in KEPT or fn in ("memset", "llvm.memset", "bzero") or \
                fn.startswith("llvm.memset"):
            if E.toptr(args[0])[1] == ("arg", 0):
                self.effect(E, st, I, fn in KEPT)

    def effect(self, E, st, I, kept):
        E.cx.ob("stores of the wipe function")
        if kept:
            return
        for f in st.frames:
            c = f.call
            if c is not None and c.op == "call" and c.callee[0] == "i":
                d = [x for x in c.func.insts if x.id == c.callee[1]]
                if d and d[0].op == "load" and d[0].volatile:
                    return
        if barrier(I):
            return
        E.report(st, "elidable wipe", I, "stores of the wipe function which the compiler may "
                 "drop: neither volatile, nor behind a volatile function pointer")

    def ret(self, E, st, val):
        ob = E.obj(st, ("arg", 0))
        E.cx.ob("lengths")
        if not zeroed(ob, 0, self.n):
            E.report(st, "incomplete wipe", E.entry.name, "not all of %d bytes are set to zero"
                     % self.n)
        for o, l, v in ob.cells:
            if o < 0 or o + l > self.n:
                E.report(st, "wipe out of bounds", E.entry.name, "a wipe of %d bytes writes "
                         "bytes %d..%d" % (self.n, o, o + l))


def barrier(I):
    """an assembly barrier that may read all memory follows in this function"""
    return any(x.op == "call" and x.callee and x.callee[0] == "asm" and
               "memory" in x.callee[1] for x in I.func.insts)


@check("P18", "effect analysis of the wipe function (volatile accesses and indirections)",
       ENGINE + """Every definition of insecure_memzero() is followed through the function
       pointer down to the stores, which have to be ones that the compiler cannot drop, and
       have to cover the buffer exactly, for the lengths given to it in this program and
       lengths up to 130.""", configs=("native", "portable"))
def p18(cx):
    cx.rule("KEPT: each store of the wipe is volatile, or is reached only through a volatile "
            "load of a writable external function pointer, or is made by a library function "
            "specified not to be dropped")
    cx.rule("ALL: a wipe of n bytes zeroes bytes 0 to n - 1 and no others")
    prog = cx.prog()
    fs = [f for f in prog.allfuncs if f.name in ("insecure_memzero",
                                                 "libcperciva_insecure_memzero")]
    if not fs:
        cx.broken("insecure_memzero not found")
    lens = set(range(131))
    for f in prog.allfuncs:
        for I in f.insts:
            if I.op == "call" and I.callee and I.callee[0] == "f" and \
                    I.callee[1] in ("insecure_memzero", "libcperciva_insecure_memzero"):
                cx.ob("calls that wipe")
                if len(I.ops) > 1 and I.ops[1][0] == "c" and I.ops[1][1] <= 8192:
                    lens.add(I.ops[1][1])
    models = M.models()
    for n in KEPT:
        models[n] = M.m_memzero
    models["memset_s"] = lambda E, st, I, a: M.m_memzero(E, st, I, [a[0], a[3]])
    models["explicit_memset"] = models["memset_explicit"] = \
        lambda E, st, I, a: M.m_memzero(E, st, I, [a[0], a[2]])
    models["volatile_load"] = volatile_ptr(cx)
    for k, f in enumerate(fs):
        cx.ob("definitions of the wipe function")
        for n in sorted(lens) if k == 0 else (1, 32):
            def setup(E, st):
                E.concrete = 10000
            cx.run(f, models, [Zeroes(n)], args=[None, C(n, 64)], setup=setup)
    cx.need("stores of the wipe function", 20, "stores of the wipe function")
    cx.need("calls that wipe", 10, "calls of the wipe function")


# -- constant time ---------------------------------------------------------------------------

COMPARES = ("memcmp", "bcmp", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memchr",
            "strlen", "strnlen", "strchr", "strcspn", "strspn")


class Timing(Monitor):
    """no branch, address or library comparison depends on a secret"""

    def __init__(self, pred):
        self.taint = set()
        self.pred = lambda k: "secret data" if mons.unstale(k) in self.taint else pred(k)

    def models(self, d):
        return dict(d)

    def start(self, E, st):
        E.secret = self.pred
        E.taint = self.taint

    def branch(self, E, st, I, cond):
        self.took(E, st, I, cond, None)

    def took(self, E, st, I, cond, v):
        E.cx.ob("branches")
        s = secret_in(cond, self.pred)
        if s:
            E.report(st, "time depends on secret", I, "branch on %s" % s)

    def access(self, E, st, I, p, n, kind):
        E.cx.ob("memory accesses")
        if p[0] != "p":
            return
        s = secret_in(p[2], self.pred)
        if s:
            E.report(st, "time depends on secret", I, "address depends on %s" % s)

    def pre(self, E, st, I, fn, args):
        if fn not in COMPARES:
            return
        E.cx.ob("library comparisons")
        n = M.cint(E, st, args[2]) if len(args) > 2 else None
        for a in args[:2]:
            if a[0] == "p" and a[1] != ("wild",):
                s = touched(E, st, a, n, self.pred)
                if s:
                    E.report(st, "time depends on secret", I, "%s() of %s" % (fn, s))


def macs(k):
    k = mons.unstale(k)
    if k[0] == "digest" and T.desc(k)[0] == "hmac":
        return "a message authentication code"
    t = mons.src_tag(k)
    if t in ("dk", "dkf"):
        return "the derived key"
    return None


def byte_of(t, i):
    """the byte of memory that byte i of t is, if it is one"""
    k = t[0]
    if k == "blob":
        return (t[1], t[2] + i)
    if k == "c":
        return ("c", t[1] >> (8 * i) & 255)
    if k == "by":
        return byte_of(t[1], t[2]) if i == 0 else ("c", 0)
    if k == "cat":
        return byte_of(t[2][i], 0)
    if k == "o" and t[1] == "zext":
        return byte_of(t[3][0], i) if 8 * i < T.width(t[3][0]) else ("c", 0)
    return None


class Unknown(Exception):
    pass


def lowbyte(t):
    """the low byte of a linear term is zero iff ..: a difference of two bytes"""
    m = 255
    ps = {}
    for x, c in t[3]:
        b = byte_of(x, 0)
        if b is None:
            raise Unknown()
        ps[b] = (ps.get(b, 0) + c) & m
    ps = {b: c for b, c in ps.items() if c}
    if t[2] & m == 0 and len(ps) == 2 and sorted(ps.values()) == [1, m]:
        return {frozenset(ps)}
    raise Unknown()


def whole(t):
    """as lowbyte, for each of the bytes of a wider difference of zero-extended bytes"""
    for x, c in t[3]:
        if not (x[0] == "o" and x[1] == "zext" and T.width(x[3][0]) == 8):
            raise Unknown()
    return lowbyte(t)


def zero_iff(t, i):
    """the pairs of bytes which have to be equal for byte i of t to be zero"""
    k = t[0]
    b = byte_of(t, i)
    if b is not None:
        return set() if b == ("c", 0) else {frozenset((b, ("c", 0)))}
    if k == "by":
        if t[2] == 0 and t[1][0] in ("lin",):
            return zero_iff(T.trunc(t[1], 8), 0) if T.trunc(t[1], 8)[0] == "lin" else \
                lowbyte(t[1])
        return zero_iff(t[1], t[2])
    if k == "lin":
        return lowbyte(t) if T.width(t) == 8 else whole(t)
    if k == "o":
        if t[1] == "zext":
            x = t[3][0]
            if 8 * i >= T.width(x):
                return set()
            if T.width(x) == 1:
                return truth(x)
            return zero_iff(x, i)
        if t[1] == "or":
            return zero_iff(t[3][0], i) | zero_iff(t[3][1], i)
        if t[1] == "xor":
            x, y = (byte_of(z, i) for z in t[3])
            if x is not None and y is not None:
                return {frozenset((x, y))}
    raise Unknown()


def truth(c):
    """pairs which have to be equal for condition c to be false"""
    if c[0] == "cmp" and c[1] == "ne":
        w = T.width(c[2]) // 8
        if c[3][0] == "c" and c[3][1] == 0:
            return set().union(*[zero_iff(c[2], i) for i in range(w)])
        ps = [(byte_of(c[2], i), byte_of(c[3], i)) for i in range(w)]
        if all(x is not None and y is not None for x, y in ps):
            return {frozenset(p) for p in ps if p[0] != p[1]}
    raise Unknown()


class Equal(Monitor):
    """zero is returned exactly if the two buffers of n bytes are equal"""

    def __init__(self, n, vals, open_):
        self.n = n
        self.vals = vals
        self.open = open_

    def ret(self, E, st, val):
        self.vals.append(val)
        E.cx.ob("lengths compared")
        A, B = ("init", ("arg", 0)), ("init", ("arg", 1))
        want = {frozenset(((A, i), (B, i))) for i in range(self.n)}
        w = T.width(val)
        if val[0] == "c" and self.n:
            # the outcome is settled by branches
            eq = []
            for i in range(self.n):
                a, b = ("blob", A, i, 1), ("blob", B, i, 1)
                d = E.decide(st, T.mkcmp("eq", a, b))
                eq.append(d if d is not None else
                          E.decide(st, T.mkcmp("eq", T.zext(a, 32), T.zext(b, 32))))
            if 0 in eq and val[1] or val[1] == 0 and all(x == 1 for x in eq):
                return
            if val[1] == 0 and 0 in eq or val[1] and all(x == 1 for x in eq):
                E.report(st, "wrong comparison", E.entry.name, "%d is returned for %s buffers" %
                         (val[1], "different" if 0 in eq else "equal"))
            elif not E.branches:
                E.report(st, "incomplete comparison", E.entry.name, "%d is returned for any "
                         "buffers of %d bytes" % (val[1], self.n))
            else:
                self.open.append("cannot decide the comparison in %s()" % E.entry.name)
            return
        try:
            got = set().union(*[zero_iff(val, i) for i in range(w // 8)])
        except Unknown:
            self.refute(E, st, val)
            return
        miss = sorted(i for i in range(self.n) if frozenset(((A, i), (B, i))) not in got)
        if miss:
            E.report(st, "incomplete comparison", E.entry.name, "of %d bytes, byte %d is not "
                     "compared" % (self.n, miss[0]))
        elif got - want:
            E.report(st, "wrong comparison", E.entry.name, "for %d bytes the result also "
                     "depends on other bytes" % self.n)

    def refute(self, E, st, val):
        """not a plain combination of differences: values of the bytes for which the returned
        expression is wrong"""
        n = self.n
        eq = [(bytes(n), bytes(n)), (bytes(range(n)), bytes(range(n))), (b"\xff" * n,) * 2]
        ne = []
        for x, _ in eq:
            for i in range(n):
                for d in (1, 2, 4, 8, 16, 32, 64, 128, 255):
                    y = bytearray(x)
                    y[i] ^= d
                    ne.append((x, bytes(y)))
                    if i:
                        y[i - 1] ^= d
                        ne.append((x, bytes(y)))
                    y[i - 1] = (x[i - 1] + x[i] - y[i]) & 255
                    if bytes(y) != x:
                        ne.append((x, bytes(y)))
        for cs, same in ((eq, True), (ne, False)):
            for x, y in cs:
                v = evaluate(val, {("arg", 0): x, ("arg", 1): y})
                if v is None:
                    self.open.append("cannot interpret the result of %s() for %d bytes" %
                                     (E.entry.name, n))
                    return
                if (v == 0) != same:
                    E.report(st, "wrong comparison", E.entry.name, "the result is %d for %s "
                             "buffers, such as %s and %s" %
                             (v, "equal" if same else "different", x.hex(), y.hex()))
                    return
        self.open.append("cannot decide the comparison in %s()" % E.entry.name)


def evaluate(t, env):
    """value of a term over the bytes of argument buffers, None if unknown"""
    k = t[0]
    if k == "c":
        return t[1]
    if k == "blob" and t[1][0] == "init" and t[1][1] in env and t[3] <= 8:
        b = env[t[1][1]]
        return int.from_bytes(b[t[2]:t[2] + t[3]], "little")
    w = T.width(t)
    m = (1 << w) - 1
    if k == "by":
        x = evaluate(t[1], env)
        return None if x is None else x >> (8 * t[2]) & 255
    if k == "cat":
        xs = [evaluate(x, env) for x in t[2]]
        return None if None in xs else sum(x << (8 * i) for i, x in enumerate(xs))
    if k == "lin":
        s = t[2]
        for x, c in t[3]:
            v = evaluate(x, env)
            if v is None:
                return None
            s += v * c
        return s & m
    sgn = lambda v, w: v - (1 << w) if v >> (w - 1) & 1 else v
    if k == "cmp":
        x, y = evaluate(t[2], env), evaluate(t[3], env)
        if x is None or y is None:
            return None
        w = T.width(t[2])
        p = t[1]
        if p[0] == "s":
            x, y = sgn(x, w), sgn(y, w)
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y,
                "ge": x >= y}.get(p if p in ("eq", "ne") else p[1:])
    if k == "o":
        xs = [evaluate(x, env) for x in t[3]]
        if None in xs:
            return None
        op = t[1]
        if op == "zext":
            return int(xs[0])
        if op == "trunc":
            return xs[0] & m
        if op == "sext":
            return sgn(int(xs[0]), T.width(t[3][0])) & m
        if len(xs) == 2:
            x, y = xs
            if op in ("or", "xor", "and"):
                return {"or": x | y, "xor": x ^ y, "and": x & y}[op]
            if op == "shl":
                return x << y & m if y < w else None
            if op == "lshr":
                return x >> y if y < w else None
            if op == "ashr":
                return sgn(x, w) >> y & m if y < w else None
            if op == "mul":
                return x * y & m
    return None


def comparison(cx, timed=True):
    """the body of crypto_verify_bytes()"""
    if not cx.has("crypto_verify_bytes"):
        return
    cx.rule("COMPARE: crypto_verify_bytes() returns zero exactly if all bytes are equal")
    big, T.MAXSIZE = T.MAXSIZE, 100000
    try:
        for n in sorted(set(range(36)) | ({48, 64} if cx.tier == "thorough" else set())):
            vals, open_ = [], []
            cx.run("crypto_verify_bytes", M.models(drop=("memcmp", "bcmp")),
                   [Equal(n, vals, open_)] + [Timing(tagged(args=(0, 1)))] * timed,
                   args=[None, None, C(n, 64)], unroll=n + 2)
            if open_ and not cx.viols:
                cx.broken(open_[0])
    finally:
        T.MAXSIZE = big


def timing(cx, fn, groups, mods, pred, args=None):
    if not cx.has(fn):
        return
    cx.ob("functions handling secrets")
    t = Timing(pred)
    n = -1
    while n < len(t.taint):
        n = len(t.taint)
        cx.run(fn, M.models(*groups, drop=(fn,)), [t], args=args,
               setup=lambda E, st: settled(E, st, mods or ("?",)))


@check("P21", "taint analysis of branches, addresses and library comparisons; algebraic "
       "evaluation of the comparison's result",
       ENGINE + """Taint from keys, codes, passphrases and hash state is propagated through
       every path; a conditional branch, memory address or early-exit library comparison that
       depends on it is reported. The result of crypto_verify_bytes() is derived as an
       expression over the bytes of both buffers and must be zero exactly if all pairs are
       equal.""", ["the block function in vector instructions is not covered",
                   "comparison lengths 0 to 35 (the program uses 16 and 32)"],
       configs=("native", "portable"))
def p21(cx):
    comparison(cx)
    cx.rule("TIME: no branch, memory address or library comparison depends on a message "
            "authentication code, a derived key, a passphrase being hashed or hash state")
    for fn in CORE_FNS:
        timing(cx, fn, G, (), macs)
    for fn, (sec, args) in HASH_FNS.items():
        for given in ([None] if fn != "PBKDF2_SHA256" else PBKDF2_ARGS):
            timing(cx, fn, (M.TRANSFORM, M.UTIL), MEM.HASH,
                   tagged("state", "schedule", "working", args=sec), given)
    timing(cx, "SHA256_Transform", (M.UTIL,), (), tagged(args=(0, 1, 2, 3)))
    for fn in ("salsa20_8", "blockmix_salsa8"):
        timing(cx, fn, (M.UTIL,), (), tagged(args=(0, 1, 2)),
               [None, None, None, C(1, 64)] if fn != "salsa20_8" else None)
    timing(cx, "crypto_entropy_read", (M.CRYPTO, M.UTIL, SYSTEM), (),
           tagged("entropy", "#", globs=False))
    cx.need("functions handling secrets", 15, "functions handling secrets")
    cx.need("branches", 100, "branches examined")
    cx.need("memory accesses", 1000, "memory accesses examined")


# -- output ----------------------------------------------------------------------------------

PRINT = {"printf", "fprintf", "vprintf", "vfprintf", "dprintf", "fputs", "puts", "fputc",
         "putc", "putchar", "perror", "warn", "warnx", "warnp", "warn0", "libcperciva_warn",
         "libcperciva_warnx", "syslog", "err", "errx", "verr", "verrx", "write", "fwrite",
         "send", "sendto", "setenv", "putenv", "execl", "execle", "execlp", "execv", "execve",
         "execvp", "system", "popen", "vsyslog", "vwarn", "vwarnx", "putchar_unlocked",
         "putc_unlocked", "fputc_unlocked", "fputs_unlocked", "fwrite_unlocked"}


def environment(k):
    """what a variable holds whose name is an argument"""
    k = mons.unstale(k)
    if k[0] == "init" and k[1][:2] == ("ext", "env") and k[1][2].isdigit():
        return "the value of the variable that holds the passphrase"
    return None


class Print(Monitor):
    """no secret is given to a function that shows, logs or stores text"""

    def __init__(self, pred):
        self.taint = set()
        self.pred = lambda k: "secret data" if mons.unstale(k) in self.taint else pred(k)

    def models(self, d):
        d = dict(d)

        def strdup(E, st, I, a):
            secret = a[0][0] == "p" and a[0][1] != ("wild",) and \
                touched(E, st, a[0], None, self.pred)
            out = M.m_strdup(E, st, I, a)
            if secret:
                self.taint.add(mons.unstale(E.obj(out[0].st, out[0].ret[1]).base))
            return out
        for f in ("strdup", "strndup"):
            if d.get(f) is M.m_strdup:
                d[f] = strdup

        def formatted(E, st, I, a):
            secret = any(secret_in(x, self.pred) or x[0] == "p" and x[1] != ("wild",) and
                         touched(E, st, x, None, self.pred) for x in a[1:])
            out = M.default_external(E, st, I, a)
            if secret and a[0][0] == "p" and a[0][1] != ("wild",):
                self.taint.add(mons.unstale(E.obj(st, a[0][1]).base))
            return out
        for f in ("snprintf", "sprintf", "vsnprintf", "vsprintf"):
            if d.get(f) is M.default_external:
                d[f] = formatted
        return d

    def start(self, E, st):
        E.secret = self.pred
        E.taint = self.taint

    def pre(self, E, st, I, fn, args):
        if fn not in PRINT:
            return
        E.cx.ob("output calls")
        for a in args:
            E.cx.ob("output arguments")
            s = secret_in(a, self.pred)
            if s is None and a[0] == "p" and a[1] != ("wild",):
                n = None
                if fn in ("fwrite", "write") and len(args) > 2:
                    n = M.cint(E, st, args[2])
                    if fn == "fwrite":
                        k = M.cint(E, st, args[1])
                        n = n * k if n is not None and k is not None else None
                s = touched(E, st, a, n, self.pred)
            if s:
                E.report(st, "secret printed", I, "%s() is given %s" % (fn, s))


def printing(cx, fn, groups, mods, pred, args=None):
    if not cx.has(fn):
        return
    cx.ob("functions handling secrets")
    t = Print(pred)
    n = -1
    while n < len(t.taint):
        n = len(t.taint)
        cx.run(fn, t.models(M.models(*groups, drop=(fn,))), [t], args=args,
               setup=lambda E, st: settled(E, st, mods or ("?",)))


@check("P22", "taint analysis of output calls",
       ENGINE + """Every argument of every output, logging, environment and execution call is
       examined on every path: neither its value nor the memory it points to may contain the
       passphrase, the derived key, round keys or generator state.""",
       configs=("native", "portable"))
def p22(cx):
    cx.rule("PRINT: no output, logging or environment call is given a passphrase, derived key, "
            "round key or generator state")
    for fn in CORE_FNS + ("scryptdec_file_printparams",):
        printing(cx, fn, G, (), tagged("dk", "dkf", args=()))
    for fn, i in (("scryptenc_file", 2), ("scryptenc_buf", 3), ("scryptdec_file", 2),
                  ("scryptdec_buf", 4), ("scryptdec_file_prep", 1)):
        printing(cx, fn, G, (), tagged("dk", "dkf", args=(i,)))
    for fn in PASS_FNS:
        got = tagged("gets")
        printing(cx, fn, (M.UTIL,), (), lambda k: got(k) or environment(k))
    for fn in ("crypto_entropy_read",):
        printing(cx, fn, (M.CRYPTO, M.UTIL, SYSTEM), (),
                 tagged("entropy", "#", globs=True))
    for fn in ("crypto_scrypt", "crypto_aes_key_expand", "crypto_aesctr_init"):
        printing(cx, fn, (M.CRYPTO, M.UTIL, M.LAYERS), MEM.AES + ("crypto/crypto_scrypt.c",),
                 tagged("pbkdf2", "smix", args=(0,)))
    from . import cli
    for al in ((), ("-P",), ("-v",), ("--passphrase",)):
        c = cli.Cli(al)
        w = Print(tagged("passwd"))
        cx.run("main", w.models(c.models()), [w], setup=cli.start, unroll=2 + len(al))
    cx.need("output calls", 20, "output calls examined")
