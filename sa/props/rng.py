"""Random numbers: the generator, and reading the system's entropy."""
import exact as X
import models as M
import mons
import terms as T
from checklib import settled
from engine import Monitor
from models import Outcome, fork
from encmon import eq, zero
from terms import C, ZERO
from . import blocks, check
from .core import ENGINE


# -- generator --------------------------------------------------------------------------------

class Drbg:
    """reference: HMAC_DRBG with SHA-256 (SP 800-90A, 10.1.2), instantiated with 48 bytes,
    reseeded with 32 bytes after 256 requests of at most 65536 bytes; output of RDRAND is
    mixed in after each seed"""

    def __init__(self, src):
        self.src = src      # source of seeds: src(kind, n) -> bytes or None
        self.K = None

    def update(self, data):
        self.K = X.H(self.K, self.V + X.const([0]) + data)
        self.V = X.H(self.K, self.V)
        if data:
            self.K = X.H(self.K, self.V + X.const([1]) + data)
            self.V = X.H(self.K, self.V)

    def seed(self, n):
        s = self.src("entropy", n)
        if s is None:
            return False
        if self.K is None:
            self.K, self.V = X.const(bytes(32)), X.const(b"\1" * 32)
        self.update(s)
        r = self.src("rdrand", 32)
        if r is not None:
            self.update(r)
        self.count = 1
        return True

    def read(self, n):
        if self.K is None and not self.seed(48):
            return None
        out = []
        while n > 0:
            if self.count > 256 and not self.seed(32):
                return None
            k = min(n, 65536)
            part = []
            while len(part) < k:
                self.V = X.H(self.K, self.V)
                part += self.V
            out += part[:k]
            self.update([])
            self.count += 1
            n -= k
        return out


class Seeds:
    """the system's sources: the k-th request of a kind fails if planned so"""

    def __init__(self, fail, rdrand):
        self.fail = set(fail)
        self.rdrand = rdrand

    def key(self, kind, k):
        return None if (kind, k) in self.fail or kind == "rdrand" and not self.rdrand else \
            ("seed", kind, k)

    def reference(self):
        n = {"entropy": 0, "rdrand": 0}

        def src(kind, size):
            if kind == "rdrand" and not self.rdrand:
                return None
            k = n[kind]
            n[kind] += 1
            key = self.key(kind, k)
            return None if key is None else X.blob(key, size)
        return src

    def model(self, kind, unit):
        def m(E, st, I, a):
            k = st.x.get(("seeds", kind), 0)
            st.x[("seeds", kind)] = k + 1
            n = M.cint(E, st, a[1])
            key = self.key(kind, k)
            E.cx.ob("seeds")
            if n is None:
                E.havoc_range(st, a[0], None, I, "seed")
            elif key is None:
                if n:
                    E.havoc_range(st, a[0], unit * n, I, "failed")
            else:
                X.put(E, st, a[0], unit * n, key)
            if key is None:
                return Outcome(st, C((1 << 32) - 1, 32), "fail")
            return Outcome(st, C(0, 32), "ok")
        return m

    def models(self):
        yes = C(1 if self.rdrand else 0, 32)
        return {"entropy_read": self.model("entropy", 1),
                "generate_seed_rdrand": self.model("rdrand", 4),
                "cpusupport_x86_rdrand": lambda E, st, I, a: Outcome(st, yes)}


class Out(Monitor):
    def __init__(self, n):
        self.n = n
        self.res = []

    def ret(self, E, st, val):
        self.res.append((E.constval(st, val), X.content(E, st, ("p", ("arg", 0), ZERO), self.n),
                         X.Carry(st), dict(st.x), st))


def history(cx, calls, fail=(), rdrand=False):
    """a sequence of requests, from the beginning"""
    seeds = Seeds(fail, rdrand)
    ref = Drbg(seeds.reference())
    carry, xs = X.Carry(), {}
    models = M.models(M.UTIL, X.HMAC, seeds.models())
    for i, n in enumerate(calls):
        out = Out(n)

        def setup(E, st):
            E.concrete = 1 << 20
            E.initial = E.straight = True
            carry.setup(E, st)
            st.x.update(xs)
        cx.run("crypto_entropy_read", models, [out], args=[None, C(n, 64)], setup=setup,
                   maxstates=20000)
        cx.ob("requests")
        want = ref.read(n)
        if not out.res:
            cx.violation("generator", "crypto_entropy_read", "request %d of a sequence, for %d "
                         "bytes: the program stops" % (i + 1, n))
            return
        if len(out.res) != 1:
            cx.broken("%d outcomes of one request" % len(out.res))
        r, got, carry, xs, st = out.res[0]
        where = "crypto_entropy_read"
        what = "request %d of a sequence, for %d bytes%s: " % (
            i + 1, n, ", with failing seeds" if fail else "")
        if r is None:
            cx.broken("result of crypto_entropy_read() not known")
        if (want is None) != (r != 0):
            cx.violation("generator", where, what + (
                "succeeds although no seed was available" if want is None else "fails"))
            return
        if want is None:
            continue
        cx.ob("bytes compared", n)
        d = X.diff(got, want)
        if d:
            cx.violation("generator", where, what + "output is not that of HMAC_DRBG: " + d)
            return


@check("P15", "symbolic-string analysis of the generator against a reference (HMAC as an "
       "uninterpreted function)",
       ENGINE + """Sequences of requests are followed from the uninitialised state; HMAC is an
       uninterpreted function of its exact key and message strings and the seeds are opaque.
       Each output byte is thereby an exact expression over the seeds, which has to be the one
       that SP 800-90A's HMAC_DRBG gives, for every content of the seeds.""",
       ["HMAC-SHA256 is taken as a function of its key and message here (see the property on "
        "HMAC)", "request sizes and sequences are those listed in the evidence"],
       configs=("native", "portable"))
def p15(cx):
    cx.rule("DRBG: each output byte equals, as an expression over the seeds, that of "
            "HMAC_DRBG instantiated with 48 bytes and reseeded with 32 bytes before the 257th "
            "request after seeding; a request fails exactly if a seed it needs is missing")
    small = [0, 1, 32, 31, 33, 64, 65, 100, 3, 256]
    history(cx, small)
    history(cx, small, rdrand=True)
    history(cx, small, [("rdrand", 0)], True)
    history(cx, [1, 16, 32, 1], [("entropy", 0)])
    history(cx, [0, 5, 7, 32, 1], [("entropy", 0), ("entropy", 1)], True)
    long = [1] * 254 + [40, 33, 32, 17]
    history(cx, long + [1] * 250 + [32] * 10)
    history(cx, long, rdrand=True)
    history(cx, long + [5, 6], [("entropy", 1), ("entropy", 2)])
    history(cx, [65535, 1, 65536, 1, 65537, 1])
    history(cx, [1] * 255 + [65537, 1])
    history(cx, [1] * 256 + [65537, 1], rdrand=True)
    history(cx, [1] * 255 + [65568, 1], [("entropy", 1)])
    blocks.parts(cx, system_entropy, blocks.codes)
    if cx.tier == "thorough":
        history(cx, [1] * 254 + [131073, 65536 * 3, 32])
        history(cx, long + long + long + [32])
    cx.need("requests", 500, "requests followed")
    cx.need("codes computed", 1000, "HMAC computations")


def requests(cx, light=True):
    """few histories, for a property that rests on the generator"""
    cx.rule("DRBG: each output byte equals, as an expression over the seeds, that of "
            "HMAC_DRBG; a request fails exactly if a seed it needs is missing")
    history(cx, [32, 1, 32])
    history(cx, [32, 32], [("entropy", 0)])
    history(cx, [32] * 258, [("entropy", 1)], True)
    history(cx, [32] * 259, rdrand=True)


def system_entropy(cx, light=True):
    cx.rule("entropy: success of entropy_read() is returned only if as many bytes as requested "
            "were obtained from /dev/urandom; RDRAND output is used only if it succeeded")
    system(cx)
    rdrand(cx)


# -- the system's entropy ---------------------------------------------------------------------

FD, DONE, LEFT = 2, 3, 4         # ghost variables


def m_open(E, st, I, a):
    s2 = fork(st)
    fd = E.fresh(st, I, "fd", 32)
    E.assume(st, T.mkcmp("sge", fd, C(0, 32)), 1)
    name = M.cstr(E, st, a[0])
    if name in ("/dev/urandom", b"/dev/urandom"):
        E.gset(st, FD, T.zext(fd, 64))
    return [Outcome(st, fd, "ok"), Outcome(s2, C(-1, 32), "fail")]


def m_openat(E, st, I, a):
    return m_open(E, st, I, a[1:])


def m_read(E, st, I, a):
    """read() with as many bytes as it likes"""
    s2, s3 = fork(st), fork(st)
    r = E.fresh(st, I, "got", 64)
    E.assume(st, T.mkcmp("sge", r, C(1, 64)), 1)
    E.assume(st, T.mkcmp("ule", r, a[2]), 1)
    res = [Outcome(s2, C(0, 64), "eof"), Outcome(s3, C(-1, 64), "err")]
    if not zero(E, st, a[2]):
        res.insert(0, Outcome(st, r, "data"))
    return res


class Fill(Monitor):
    """the buffer is filled from /dev/urandom, byte by byte (DONE + LEFT is its length)"""

    def __init__(self, n=("s", ("arg", 1), 64)):
        self.n = n

    def start(self, E, st):
        E.gset(st, DONE, C(0, 64))
        E.gset(st, LEFT, self.n)

    def pre(self, E, st, I, fn, a):
        if fn != "read":
            return
        E.cx.ob("reads checked")
        fd = E.gget(st, FD)
        p = E.toptr(a[1])
        ok = fd is not None and eq(E, st, T.zext(a[0], 64), fd)
        here = p[1] == ("arg", 0) and eq(E, st, p[2], E.gget(st, DONE))
        st.mon["src"] = (ok, here)
        if p[1] == ("arg", 0):
            left = E.gget(st, LEFT), T.sub(self.n, E.gget(st, DONE), 64)
            if not (zero(E, st, a[2]) or here and any(
                    a[2] == x or E.decide(st, T.mkcmp("ule", a[2], x)) == 1 for x in left)):
                E.report(st, "entropy", I, "reads past the end of the buffer, or not behind "
                         "the bytes read so far")

    def post(self, E, st, I, fn, a, ret, tag):
        if fn != "read":
            return
        ok, here = st.mon.pop("src")
        if tag == "data" and ok and here:
            E.gset(st, DONE, T.add(E.gget(st, DONE), ret, 64))
            E.gset(st, LEFT, T.sub(E.gget(st, LEFT), ret, 64))

    def ret(self, E, st, val):
        r = E.decide(st, T.mkcmp("eq", val, C(0, 32)))
        E.cx.ob("outcomes")
        if r == 0:
            return
        E.cx.ob("successes")
        if not eq(E, st, E.gget(st, DONE), self.n) and not zero(E, st, E.gget(st, LEFT)):
            E.report(st, "entropy", "entropy_read", "success although not every byte of the buffer was "
                     "read from /dev/urandom")


def system(cx):
    d = {"open": m_open, "open64": m_open, "openat": m_openat, "read": m_read,
         "close": M.m_int_okfail(), "malloc": M.m_malloc, "free": M.m_void,
         "warn": M.m_void, "warnx": M.m_void}

    def setup(E, st):
        E.assume(st, T.mkcmp("ult", ("s", ("arg", 1), 64), C(1 << 62, 64)), 1)
    E = cx.run("entropy_read", M.models(M.UTIL, d), [Fill()], setup=setup, quiet=True)
    if not E.viol:
        cx.ob("buffers of any length")
    for n in (0, 1, 2, 31, 32, 33, 48, 255, 256, 257, 4096, 65536, 65537, 1 << 20, 1 << 33):
        cx.run("entropy_read", M.models(M.UTIL, d), [Fill(C(n, 64))], args=[None, C(n, 64)])


def m_rdrand(E, st, I, a):
    k = st.x.get(("rdrand",), 0)
    s2 = fork(st)
    st.x[("rdrand",)] = k + 1
    E.cx.ob("RDRAND uses")
    s2.x[("rdrand failed",)] = 1
    v = ("s", ("rdrand", k), 32)
    return [Outcome(st, T.add(T.zext(v, 64), C(1 << 32, 64), 64), "ok"),
            Outcome(s2, C(0, 64), "fail")]


class Rdrand(Monitor):
    def __init__(self, n):
        self.n = n

    def ret(self, E, st, val):
        r = E.decide(st, T.mkcmp("eq", val, C(0, 32)))
        if r == 0:
            if not st.x.get(("rdrand failed",)):
                E.report(st, "rdrand", "generate_seed_rdrand", "fails although RDRAND did not")
            return
        seen = set()
        for i in range(self.n):
            v = E.load(st, ("p", ("arg", 0), C(4 * i, 64)), 4)
            if v[0] != "s" or v[1][0] != "rdrand" or v in seen:
                E.report(st, "rdrand", "generate_seed_rdrand", "success although word %d of %d does not have a "
                         "value of its own from RDRAND" % (i, self.n))
                return
            seen.add(v)
        E.cx.ob("words from RDRAND", self.n)


def rdrand(cx):
    if not cx.has("generate_seed_rdrand"):
        return
    for n in (0, 1, 3, 8):
        cx.run("generate_seed_rdrand", M.models(M.UTIL, {"llvm.x86.rdrand.32": m_rdrand}),
               [Rdrand(n)], args=[None, C(n, 64)])
    cx.need("words from RDRAND", 12, "words of RDRAND output checked")


@check("P16", "dataflow over every path of entropy_read() with any partial reads",
       ENGINE + """read() may return any number of bytes up to what was asked for, or end of
       file, or an error. The position and descriptor of each read and the number of bytes
       obtained are tracked symbolically for a buffer of any length.""",
       ["read() stores what it says it did", "/dev/urandom gives random bytes"],
       configs=("native", "portable"))
def p16(cx):
    cx.rule("entropy: every read() is from the descriptor of /dev/urandom into the position "
            "behind the bytes obtained so far and no longer than the rest; success is "
            "returned only if as many bytes as requested were obtained")
    cx.rule("RDRAND: success only if every word of the buffer holds the output of a use of "
            "RDRAND that succeeded")
    system(cx)
    rdrand(cx)
    cx.need("reads checked", 4, "calls of read() followed")
    cx.need("successes", 3, "successful paths")
