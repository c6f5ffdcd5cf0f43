"""The key derivation: parameter validation (P13) and structure (P14)."""
import models as M
import terms as T
from checklib import settled
from engine import Monitor
from mons import FAIL
from terms import C, ZERO
from . import check
from .core import ENGINE

MIX = ("crypto_scrypt_smix", "crypto_scrypt_smix_sse2")
SIZED = {"malloc": 0, "aligned_alloc": 1, "posix_memalign": 2, "mmap": 1}
A = {"passwd": 0, "passwdlen": 1, "salt": 2, "saltlen": 3, "N": 4, "r": 5, "p": 6, "buf": 7,
     "buflen": 8}
W = {"N": 64, "r": 32, "p": 32, "buflen": 64, "passwdlen": 64, "saltlen": 64}
BUFMAX = ((1 << 32) - 1) * 32


def mixing(fn, args):
    return fn in MIX or fn == "?indirect" and len(args) == 5


class Box:
    """a set of parameters: name -> value or (least, greatest)"""

    def __init__(self, valid, **kw):
        self.valid = valid
        self.v = kw

    def args(self):
        a = [None] * 9
        for k, x in self.v.items():
            if isinstance(x, int):
                a[A[k]] = C(x, W[k])
        return a

    def setup(self, E, st):
        E.relate = True
        settled(E, st, ("crypto/crypto_scrypt.c",))
        for k, x in self.v.items():
            if not isinstance(x, int):
                s = ("s", ("arg", A[k]), W[k])
                E.assume(st, T.mkcmp("uge", s, C(x[0], W[k])), 1)
                E.assume(st, T.mkcmp("ule", s, C(x[1], W[k])), 1)

    def term(self, k):
        x = self.v.get(k)
        return C(x, 64) if isinstance(x, int) else T.zext(("s", ("arg", A[k]), W[k]), 64) \
            if W[k] < 64 else ("s", ("arg", A[k]), 64)

    def points(self):
        """the corners of the range, and a point inside"""
        out = [{}]
        for k, x in self.v.items():
            vals = [x] if isinstance(x, int) else sorted({x[0], x[1], (x[0] + x[1]) // 2})
            out = [dict(d, **{k: v}) for d in out for v in vals]
        return [Box(self.valid, **d) for d in out]

    def __str__(self):
        return ", ".join("%s = %d" % (k, x) if isinstance(x, int) else
                         "%s in [%d, %d]" % (k, x[0], x[1]) for k, x in sorted(self.v.items()))


class Valid(Monitor):
    """invalid parameters never succeed, valid ones fail only if a call failed"""

    def __init__(self, cx, box):
        self.cx, self.box = cx, box

    def pre(self, E, st, I, fn, args):
        if not self.box.valid and (fn == "PBKDF2_SHA256" or mixing(fn, args)):
            self.cx.ob("invalid parameters let through")
            E.report(st, "invalid parameters accepted", I,
                     "the derivation is computed although it is not defined for %s" % self.box)
            st.dead = True

    def post(self, E, st, I, fn, args, ret, tag):
        if tag in FAIL:
            st.mon["f"] = 1

    def ret(self, E, st, val):
        v = E.rng(st, val) if val is not None else None
        if not self.box.valid:
            self.cx.ob("returns for invalid parameters")
            if v is None or v.slo <= 0 <= v.shi and 0 not in v.ne:
                E.report(st, "invalid parameters accepted", E.entry.blocks[0].insts[0],
                         "success is returned although the derivation is not defined for %s"
                         % self.box)
        else:
            self.cx.ob("returns for valid parameters")
            if not st.mon.get("f") and not (v is not None and v.slo == v.shi == 0):
                E.report(st, "valid parameters refused", E.entry.blocks[0].insts[0],
                         "a path fails although no call has failed, for %s" % self.box)


class Shape(Monitor):
    """PBKDF2 of the passphrase into B, mixing of each block of B, PBKDF2 with B as salt"""

    def __init__(self, cx, box, sizes=True, order=True, unmap=None):
        self.cx, self.box, self.sizes, self.order = cx, box, sizes, order
        self.unmap = sizes if unmap is None else unmap
        r, p, N = box.term("r"), box.term("p"), box.term("N")
        self.r, self.p, self.N = r, p, N
        self.block = T.mul(r, C(128, 64), 64)
        self.blen = T.mul(T.mul(r, p, 64), C(128, 64), 64)

    def bad(self, E, st, I, msg):
        E.report(st, "derivation", I, msg + " (for %s)" % self.box)

    def eq(self, E, st, a, b):
        if a == b:
            return True
        a, b = (T.zext(x, 64) if T.width(x) < 64 else x for x in (a, b))
        return E.decide(st, T.mkcmp("eq", a, b)) == 1

    def ptr(self, E, st, t):
        p = E.toptr(t)
        return p if p[0] == "p" else None

    def room(self, E, st, t, need):
        """is there room for need bytes at t?"""
        p = self.ptr(E, st, t)
        n = dict(st.mon.get("sz", ())).get(p[1]) if p else None
        if n is None:
            return None
        end = T.add(p[2], need, 64)
        return E.decide(st, T.mkcmp("ule", end, n)) == 1 and \
            E.decide(st, T.mkcmp("ule", p[2], n)) == 1

    def wraps(self, E, st, t):
        """is the offset computed by arithmetic of less than 64 bits which may wrap?"""
        if t[0] == "lin":
            if t[1] < 64 and E._noWrap(st, t, E.rng(st, t)) is None:
                return True
            return any(self.wraps(E, st, x) for x, _ in t[3])
        if t[0] == "o" and t[1] in ("zext", "sext", "mul", "shl", "trunc"):
            if t[1] == "mul" and t[2] < 64:
                n = 1
                for x in t[3]:
                    n *= E.rng(st, x).uhi
                if n >> t[2]:
                    return True
            if t[1] == "shl" and t[2] < 64 and \
                    E.rng(st, t[3][0]).uhi << min(64, E.rng(st, t[3][1]).uhi) >> t[2]:
                return True
            if t[1] == "trunc" and E.rng(st, t[3][0]).uhi >> t[2]:
                return True
            return any(self.wraps(E, st, x) for x in t[3])
        return False

    def pre(self, E, st, I, fn, args):
        if fn == "munmap":
            p = self.ptr(E, st, args[0])
            n = dict(st.mon.get("sz", ())).get(p[1]) if p else None
            if n is not None and self.unmap:
                self.cx.ob("unmappings")
                if not self.eq(E, st, args[1], n):
                    E.report(st, "size", I, "the number of bytes unmapped is not the number "
                             "of bytes mapped, for %s" % self.box)
        elif fn == "PBKDF2_SHA256":
            self.pbkdf(E, st, I, args)
        elif mixing(fn, args):
            self.mix(E, st, I, args)

    def post(self, E, st, I, fn, args, ret, tag):
        if fn in SIZED and tag == "ok":
            p = self.ptr(E, st, E.load(st, args[0], 8) if fn == "posix_memalign" else ret)
            if p:
                d = dict(st.mon.get("sz", ()))
                d[p[1]] = args[SIZED[fn]]
                st.mon["sz"] = tuple(sorted(d.items(), key=repr))

    def pbkdf(self, E, st, I, a):
        if self.sizes:
            for x, n in ((a[5], a[6]), (a[2], a[3])):
                ok = self.room(E, st, x, n)
                if ok is not None:
                    self.cx.ob("buffer sizes")
                    if not ok:
                        E.report(st, "size", I, "PBKDF2 is given more than was allocated, "
                                 "for %s" % self.box)
        if not self.order:
            return
        self.cx.ob("PBKDF2 calls")
        ph = st.mon.get("ph", 0)
        if not self.eq(E, st, a[4], C(1, 64)):
            self.bad(E, st, I, "the number of PBKDF2 iterations is not 1")
        if a[0] != ("p", ("arg", 0), ZERO) or a[1] != ("s", ("arg", 1), 64):
            self.bad(E, st, I, "PBKDF2 is not given the whole passphrase")
        b = self.ptr(E, st, a[5])
        if ph == 0:
            if a[2] != ("p", ("arg", 2), ZERO) or a[3] != ("s", ("arg", 3), 64):
                self.bad(E, st, I, "the first PBKDF2 is not given the whole salt")
            if not b or b[2] != ZERO or not self.eq(E, st, a[6], self.blen):
                self.bad(E, st, I, "the first PBKDF2 does not yield p blocks of 128*r bytes")
            st.mon["ph"] = 1
            st.mon["B"] = b[1] if b else None
        elif ph == 1:
            s = self.ptr(E, st, a[2])
            if not s or (s[1], s[2]) != (st.mon.get("B"), ZERO) or \
                    not self.eq(E, st, a[3], self.blen):
                self.bad(E, st, I, "the last PBKDF2 is not salted with all p blocks")
            if b != ("p", ("arg", 7), ZERO) or \
                    not self.eq(E, st, a[6], self.box.term("buflen")):
                self.bad(E, st, I, "the last PBKDF2 does not fill the output")
            p = self.box.v["p"]
            if isinstance(p, int) and len(st.mon.get("mixed", ())) != p:
                self.bad(E, st, I, "%d of %d blocks have been mixed" %
                         (len(st.mon.get("mixed", ())), p))
            st.mon["ph"] = 2
        else:
            self.bad(E, st, I, "PBKDF2 is called once more")

    def mix(self, E, st, I, a):
        if self.sizes:
            for x, n, what in ((a[0], self.block, "128*r bytes of a block"),
                               (a[3], T.mul(self.block, self.N, 64), "128*r*N bytes (V)"),
                               (a[4], T.add(T.mul(self.r, C(256, 64), 64), C(64, 64), 64),
                                "256*r + 64 bytes (XY)")):
                self.cx.ob("buffer sizes")
                ok = self.room(E, st, x, n)
                if ok is None:
                    self.cx.broken("mixing works on memory whose size is not known")
                if not ok and not isinstance(self.box.v["p"], int):
                    # a relation between the position and p which is not tracked, unless the
                    # position wraps
                    if not self.wraps(E, st, E.toptr(x)[2]):
                        self.cx.ob("positions without a known relation to p")
                        continue
                if not ok:
                    E.report(st, "size", I, "the mixing function needs %s, more than were "
                             "allocated, for %s" % (what, self.box))
            objs = [self.ptr(E, st, a[i])[1] for i in (0, 3, 4)]
            if len(set(objs)) != 3:
                E.report(st, "size", I, "work areas of the mixing function overlap")
        if not self.order:
            return
        self.cx.ob("blocks mixed")
        if st.mon.get("ph") != 1:
            self.bad(E, st, I, "mixing happens before the first or after the last PBKDF2")
        if not self.eq(E, st, a[1], self.r):
            self.bad(E, st, I, "the block size is not r")
        if not self.eq(E, st, a[2], self.N):
            self.bad(E, st, I, "the number of rounds is not N")
        b = self.ptr(E, st, a[0])
        if not b or b[1] != st.mon.get("B"):
            self.bad(E, st, I, "what is mixed is not the output of the first PBKDF2")
            return
        p = self.box.v["p"]
        if not isinstance(p, int):
            return
        k = next((i for i in range(p) if self.eq(E, st, b[2], T.mul(self.block, C(i, 64), 64))),
                 None)
        if k is None:
            self.bad(E, st, I, "what is mixed does not start at one of the p blocks")
        elif k in st.mon.get("mixed", ()):
            self.bad(E, st, I, "block %d is mixed twice" % k)
        else:
            st.mon["mixed"] = tuple(sorted(st.mon.get("mixed", ()) + (k,)))

    def access(self, E, st, I, p, n, kind):
        if self.order and kind == "store" and p[0] == "p" and (
                p[1] == ("arg", 7) or st.mon.get("ph") and p[1] == st.mon.get("B")):
            self.bad(E, st, I, "the blocks or the output are modified by something else than "
                     "PBKDF2 and mixing")

    def ret(self, E, st, val):
        if self.order and val is not None and E.constval(st, val) == 0:
            self.cx.ob("derivations completed")
            if st.mon.get("ph") != 2:
                self.bad(E, st, E.entry.blocks[0].insts[0],
                         "success is returned although the derivation is incomplete")


def valid(tier):
    top = (1 << 30) - 1
    for p in (1, 2, 3, 4, 7, 8) + ((5, 6, 9, 16, 32) if tier == "thorough" else ()):
        yield Box(True, N=2, r=(1, top // p), p=p, buflen=(0, BUFMAX))
    for k in (1, 2, 10, 14, 20, 27, 28, 40, 56) + (tuple(range(3, 56)) if tier == "thorough"
                                                   else ()):
        hi = min(top, (1 << (57 - k)) - 1)
        yield Box(True, N=1 << k, r=(1, hi), p=1, buflen=(0, BUFMAX))
    yield Box(True, N=1 << 14, r=8, p=3, buflen=64)
    yield Box(True, N=1 << 10, r=1, p=2, buflen=(0, BUFMAX))


def sizes():
    """the number of blocks may be anything"""
    top = (1 << 30) - 1
    for k, r in ((1, 1), (14, 8), (10, 32), (4, 1 << 20)):
        yield Box(True, N=1 << k, r=r, p=(1, top // r), buflen=(0, BUFMAX))


def invalid(tier):
    ok = dict(N=1 << 14, r=8, p=1, buflen=64)

    def but(**kw):
        return Box(False, **dict(ok, **kw))
    yield but(r=0)
    yield but(p=0)
    yield but(r=0, p=0)
    yield but(N=0)
    yield but(N=1)
    for k in range(1, 64):
        yield but(N=((1 << k) + 1, (2 << k) - 1))
        yield but(N=((1 << k) + 1, (2 << k) - 1), r=(1, 1 << 20))
    yield but(buflen=(BUFMAX + 1, (1 << 64) - 1))
    m = (1 << 32) - 1
    for b in range(0, 32):
        x = 1 << b
        lo = max(1, (1 << 30) >> b)
        yield but(N=2, r=(lo, m), p=x)
        yield but(N=2, r=x, p=(lo, m))
        yield but(N=2, r=(lo, m), p=(x, 2 * x - 1))
        yield but(N=2, r=(x, 2 * x - 1), p=(lo, m))
    for x in (3, 5, 7, 100, 1000, 65535):
        yield but(N=2, r=(((1 << 30) + x - 1) // x, m), p=x)
        yield but(N=2, r=x, p=(((1 << 30) + x - 1) // x, m))
    for k in range(28, 64):
        lo = max(1, 1 << max(0, 57 - k))
        yield but(N=1 << k, r=(lo, (1 << 30) - 1))
        yield but(N=1 << k, r=(lo, (1 << 30) - 1), p=(1, 1 << 30))


def run(cx, box, mons, quiet=False):
    cx.ob("parameter ranges")
    return cx.run("crypto_scrypt", M.models(M.CRYPTO, M.UTIL, M.CORE, M.LAYERS,
                                            drop=("crypto_scrypt",)),
                  mons, setup=box.setup, args=box.args(), quiet=quiet)


def validity(cx, box):
    """a range which does not seem to be treated as it should be is reported only if one of
    its corners is not either"""
    E = run(cx, box, [Valid(cx, box)], quiet=True)
    if E.viol:
        for q in box.points():
            run(cx, q, [Valid(cx, q)])


@check("P13", "interval analysis over a partition of the parameter space, and size obligations "
       "of the work areas",
       ENGINE + """crypto_scrypt() is analysed for ranges of its parameters which together
       cover the boundary of the set on which scrypt is defined: for every range outside of it
       no path may derive a key or return success, for every range inside no path may fail
       unless a call failed. In every valid range each work area must be at least as large as
       what PBKDF2 and the mixing function access, and exactly what was mapped is unmapped.""",
       ["the ranges lie at powers of two and at a few other values; a limit wrong only for "
        "other products r*p by less than their rounding is not seen"])
def p13(cx):
    cx.rule("VALID: N is a power of two > 1, 0 < r*p < 2^30, buflen <= (2^32 - 1) * 32, "
            "and 128*r*N < 2^64, or nothing is derived and failure is returned")
    cx.rule("VALID: parameters within these limits are not refused")
    cx.rule("SIZE: B >= 128*r*p, V >= 128*r*N, XY >= 256*r + 64 bytes")
    for b in invalid(cx.tier):
        validity(cx, b)
    for b in list(valid(cx.tier)) + list(sizes()):
        validity(cx, b)
        run(cx, b, [Shape(cx, b, True, False)])
    cx.need("returns for invalid parameters", 150, "refused parameter ranges")
    cx.need("returns for valid parameters", 15, "accepted parameter ranges")
    cx.need("buffer sizes", 30, "work areas compared")


@check("P14", "typestate of the derivation with symbolic block offsets",
       ENGINE + """A monitor follows crypto_scrypt() through PBKDF2 of the whole passphrase and
       salt with one iteration into p blocks of 128*r bytes, mixing of each of the p blocks
       exactly once with the block size r and N rounds, and PBKDF2 with one iteration, salted
       with all p blocks, into the whole output. r is symbolic; p ranges over small
       numbers.""",
       ["the mixing and PBKDF2 functions compute what they are named after"])
def p14(cx):
    cx.rule("KDF: PBKDF2(P, S, 1, 128*r*p) -> mix blocks 0..p-1 -> PBKDF2(P, B, 1, buflen)")
    for b in list(valid(cx.tier)) + list(sizes()):
        run(cx, b, [Shape(cx, b, False, True)])
    from . import blocks, whole
    blocks.parts(cx, blocks.derivations, blocks.mixing, whole.scrypt)
    cx.need("PBKDF2 calls", 30, "PBKDF2 calls compared")
    cx.need("blocks mixed", 25, "mixing calls compared")
    cx.need("derivations completed", 10, "successful derivations")
