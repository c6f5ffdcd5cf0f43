"""Resource limits: enforcement on decryption, choice of parameters on encryption."""
from fractions import Fraction
import encmon
import models as M
import terms as T
from engine import Monitor, mask, sgn
from terms import C, ZERO
from . import check, system
from .core import ENGINE, core_models

O_MAXMEM, O_FRAC, O_TIME, O_LOGN, O_R, O_P = 0, 8, 16, 24, 28, 32


def strip(t):
    while t[0] == "o" and t[1] in ("zext", "sext"):
        t = t[3][0]
    return t


def pow2(t):
    """2^x as an atom, for 1 << x"""
    return ("pow2", leaf(t))


def leaf(t):
    """the value a term denotes, irrespective of zero-extension"""
    t = strip(t)
    if t[0] == "cat":
        # trailing zero bytes are a zero-extension
        parts = list(t[2])
        while len(parts) > 1 and parts[-1][0] == "c" and parts[-1][1] == 0:
            parts.pop()
        return ("val",) + tuple(parts)
    if t[0] == "lin":
        # the same sum in different widths (shift counts are small: no wrap-around)
        return ("sum", sgn(t[2], t[1])) + tuple(sorted(
            ((leaf(x), sgn(c, t[1])) for x, c in t[3]), key=repr))
    return t


def mono(E, st, t, depth=0):
    """t as coefficient * product of atom^exponent, or None. Integer division counts as
    division; an integer product that may wrap around is not accepted."""
    if depth > 12:
        return None
    k = t[0]
    if k == "c":
        return Fraction(t[1]), {}
    if k == "fp":
        if t[1] != t[1] or t[1] in (float("inf"), float("-inf")):
            return None
        return Fraction(t[1]), {}
    if k == "lin":
        if t[2] == 0 and len(t[3]) == 1:
            x, c = t[3][0]
            r = E.rng(st, x)
            if r.uhi * c > mask(t[1]):
                return None
            m = mono(E, st, x, depth + 1)
            return None if m is None else (m[0] * c, m[1])
        return Fraction(1), {t: 1}
    if k == "o":
        op, a = t[1], t[3]
        if op in ("uitofp", "sitofp", "fpext", "fptrunc"):
            return mono(E, st, a[0], depth + 1)
        if op in ("zext", "sext"):
            return mono(E, st, a[0], depth + 1)
        if op in ("fmul", "mul"):
            if op == "mul":
                p = 1
                for x in a:
                    p *= E.rng(st, x).uhi
                if p > mask(t[2]):
                    return None
            c, d = Fraction(1), {}
            for x in a:
                m = mono(E, st, x, depth + 1)
                if m is None:
                    return None
                c *= m[0]
                for y, e in m[1].items():
                    d[y] = d.get(y, 0) + e
            return c, {x: e for x, e in d.items() if e}
        if op in ("fdiv", "udiv", "sdiv"):
            x, y = mono(E, st, a[0], depth + 1), mono(E, st, a[1], depth + 1)
            return divide(x, y)
        if op == "lshr":
            x = mono(E, st, a[0], depth + 1)
            y = (Fraction(1 << a[1][1]), {}) if a[1][0] == "c" else \
                (Fraction(1), {pow2(a[1]): 1})
            return divide(x, y)
        if op == "shl":
            if a[0] == C(1, t[2]):
                return Fraction(1), {pow2(a[1]): 1}
            if a[1][0] == "c":
                if E.rng(st, a[0]).uhi << a[1][1] > mask(t[2]):
                    return None
                x = mono(E, st, a[0], depth + 1)
                return None if x is None else (x[0] * (1 << a[1][1]), x[1])
            return None
        if op in ("fptoui", "fptosi"):
            return mono(E, st, a[0], depth + 1)
    return Fraction(1), {leaf(t): 1}


def divide(x, y):
    if x is None or y is None or y[0] == 0:
        return None
    d = dict(x[1])
    for k, e in y[1].items():
        d[k] = d.get(k, 0) - e
    return x[0] / y[0], {k: e for k, e in d.items() if e}


def less(E, st, c, v):
    """normalise comparison c with truth value v to (L, R, strict): L < R or L <= R"""
    if c[0] == "o" and c[1] in ("not",):
        return less(E, st, c[3][0], 1 - v)
    if c[0] != "cmp":
        return None
    pred, a, b = c[1], c[2], c[3]
    if pred[0] == "f":
        p = pred[2:]
    elif pred[0] in "us":
        p = pred[1:]
    else:
        return None
    if p not in ("lt", "le", "gt", "ge"):
        return None
    if p in ("gt", "ge"):
        a, b, p = b, a, {"gt": "lt", "ge": "le"}[p]
    if not v:
        a, b, p = b, a, {"lt": "le", "le": "lt"}[p]
    if pred[0] != "f":
        # integers: x <= k is x < k+1, k <= x is k-1 < x
        if p == "le" and b[0] == "c" and b[1] < mask(b[2]):
            b, p = C(b[1] + 1, b[2]), "lt"
        elif p == "lt" and a[0] == "c":
            a, p = C(a[1] + 1, a[2]), "le"
    return a, b, p


class LimitMon(Monitor):
    """memory limit M and speed S are what memtouse() and scryptenc_cpuperf() reported"""

    def __init__(self, P, force):
        self.Pn, self.fn = P, force
        self.force = ("s", ("arg", force), 32)

    def start(self, E, st):
        E.coarse = False
        self.P = ("arg", self.Pn)

    def par(self, E, st, off, n):
        return E.load(st, ("p", self.P, C(off, 64)), n)

    def init(self, off, n):
        return ("blob", ("init", self.P), off, n)

    def pre(self, E, st, I, fn, a):
        if fn == "memtouse":
            E.cx.ob("memory limit queries")
            if a[0] != self.init(O_MAXMEM, 8) or a[1] != self.init(O_FRAC, 8):
                E.report(st, "LIMIT", I, "the memory limit is not computed from the caller's "
                         "maximum and fraction")
        elif fn == "crypto_scrypt":
            self.kdf(E, st, I, a)
            st.dead = True          # what follows is not about limits
        elif fn in ("warn0", "warnx", "warn", "warnp"):
            st.mon["warned"] = 1

    def post(self, E, st, I, fn, a, ret, tag):
        if fn == "memtouse" and tag == "ok":
            st.mon["M"] = E.load(st, a[2], 8)
        elif fn == "scryptenc_cpuperf" and tag == "ok":
            E.cx.ob("speed measurements")
            st.mon["S"] = E.load(st, a[0], 8)

    def sources(self, st):
        """atom -> role"""
        d = {}
        if "M" in st.mon:
            d[st.mon["M"]] = "M"
        if "S" in st.mon:
            d[st.mon["S"]] = "S"
        d[self.init(O_TIME, 8)] = "t"
        return d

    def roles(self, E, st, m):
        """monomial with atoms replaced by roles; None if something else occurs"""
        src = self.sources(st)
        N, r, p = self.nrp(E, st)
        out = {}
        for x, e in m[1].items():
            if x in src:
                k = src[x]
            elif x == N:
                k = "N"
            elif x == r:
                k = "r"
            elif x == p:
                k = "p"
            else:
                return None
            out[k] = out.get(k, 0) + e
        return out

    def nrp(self, E, st):
        ln = leaf(self.par(E, st, O_LOGN, 4))
        return ("pow2", ln), leaf(self.par(E, st, O_R, 4)), leaf(self.par(E, st, O_P, 4))

    def took(self, E, st, I, c, v):
        if "M" not in st.mon and "S" not in st.mon:
            return
        n = less(E, st, c, v)
        if n is None:
            return
        L, R, _ = n
        x, y = mono(E, st, L), mono(E, st, R)
        q = divide(x, y)
        if q is None:
            return
        ro = self.roles(E, st, q)
        if ro is None:
            return
        for key, want, k in (("memlow", {"M": 1, "N": -1, "r": -1}, 128),
                             ("timelow", {"S": 1, "t": 1, "N": -1, "r": -1, "p": -1}, 4)):
            if ro == want:
                E.cx.ob("limit comparisons")
                st.mon[key] = 1 if q[0] * k == 1 else "bad"
            elif ro == {a: -b for a, b in want.items()}:
                E.cx.ob("limit comparisons")
                st.mon[key] = 0 if q[0] == k else "bad"

    def found(self, E, st):
        """what was found about the memory and the CPU limit: 1 exceeded, 0 not"""
        m = st.mon.get("memlow")
        if m is None and "M" in st.mon and E.rng(st, st.mon["M"]).uhi < 128:
            m = 1           # no parameters fit into fewer than 128 bytes
        return m, st.mon.get("timelow")

    def kdf(self, E, st, I, a):
        raise NotImplementedError


class DecLimits(LimitMon):
    def kdf(self, E, st, I, a):
        E.cx.ob("key derivations")
        if E.decide(st, T.mkcmp("ne", self.force, C(0, 32))) == 1:
            E.cx.ob("forced key derivations")
            return
        for v, what, s in zip(self.found(E, st), ("memory", "CPU time"),
                              ("128*N*r <= memory limit", "4*N*r*p <= speed * time limit")):
            if v == 0:
                E.cx.ob("enforced limits")
            elif v == "bad":
                E.report(st, "LIMIT", I, "the %s limit is tested with the wrong formula: %s is "
                         "not what was checked" % (what, s))
            elif v == 1:
                E.report(st, "LIMIT", I, "the key is derived although the %s limit was found "
                         "to be exceeded" % what)
            else:
                E.report(st, "LIMIT", I, "without being forced to, the key is derived on a "
                         "path on which %s was not established" % s)

    def ret(self, E, st, val):
        rc = E.constval(st, val)
        if rc not in (9, 10, 15):
            return
        E.cx.ob("limit errors")
        if E.decide(st, T.mkcmp("eq", self.force, C(0, 32))) != 1:
            E.report(st, "LIMIT", E.entry.name, "a resource limit error is returned although "
                     "the caller asked to ignore limits")
        m, t = self.found(E, st)
        if "bad" in (m, t) or m is None and t is None:
            E.report(st, "LIMIT", E.entry.name, "a resource limit error is returned on a path "
                     "on which no limit was found to be exceeded by the documented formulas")
        elif rc == 9 and m != 1 or rc == 10 and t != 1 or rc == 15 and (m, t) != (1, 1):
            E.report(st, "LIMIT", E.entry.name, "the resource limit error returned does not "
                     "name the limit that is exceeded")


class EncLimits(LimitMon):
    """explicit parameters: limits only cause warnings"""

    def explicit(self, E, st):
        return E.decide(st, T.mkcmp("ne", self.init(O_LOGN, 4), C(0, 32)))

    def pre(self, E, st, I, fn, a):
        super().pre(E, st, I, fn, a)

    def kdf(self, E, st, I, a):
        if self.explicit(E, st) != 1:
            return
        E.cx.ob("key derivations with explicit parameters")
        if 1 in self.found(E, st) and not st.mon.get("warned"):
            E.report(st, "LIMIT", I, "explicit parameters exceed a limit and no warning is "
                     "printed")
        N, r, p = self.nrp(E, st)
        iN = ("pow2", leaf(self.init(O_LOGN, 4)))
        if (N, r, p) != (iN, leaf(self.init(O_R, 4)), leaf(self.init(O_P, 4))):
            E.report(st, "LIMIT", I, "explicit parameters are not used as given")

    def ret(self, E, st, val):
        rc = E.constval(st, val)
        if self.explicit(E, st) == 1 and rc in (9, 10, 15):
            E.report(st, "LIMIT", E.entry.name, "explicitly chosen parameters are refused "
                     "because of a resource limit")
        if self.explicit(E, st) == 0 and rc in (9, 10, 15, 14):
            E.report(st, "LIMIT", E.entry.name, "encryption with automatically chosen "
                     "parameters fails with a parameter or limit error")


@check("P11", "path-sensitive abstract interpretation with canonicalised limit formulas",
       ENGINE + """Comparisons that involve the memory limit reported by the memory query or
       the measured speed are normalised to monomials, so that the order and form of the
       divisions does not matter. On every path to the key derivation of a decryption that was
       not forced, 128*N*r <= memory limit and 4*N*r*p <= speed*time must have been
       established; limit errors require that the corresponding comparison failed and that the
       operation was not forced; explicit encryption parameters are used unchanged, with a
       warning where a limit is exceeded.""",
       ["integer division rounds as in the reference formula; the boundary case of exact "
        "floating-point equality is not distinguished"])
def p11(cx):
    cx.rule("LIMIT: decryption derives the key only within both limits, unless forced; limit "
            "errors name the exceeded limit; explicit encryption parameters never fail on "
            "limits but are warned about")
    cx.rule("memory, rate: the limits are those of the system, as in P33")
    system.memory(cx)
    system.speed(cx)
    cx.run("scryptdec_file_prep", core_models(), [DecLimits(3, 5)])
    cx.run("scryptdec_buf", core_models(), [DecLimits(6, 8)])
    cx.run("scryptenc_file", core_models(), [EncLimits(4, 6)])
    cx.run("scryptenc_buf", core_models(), [EncLimits(5, 7)])
    cx.need("enforced limits", 4, "memory and CPU limits of both decryption entry points")
    cx.need("forced key derivations", 2, "forced decryption")
    cx.need("limit errors", 6, "limit errors of both decryption entry points")
    cx.need("key derivations with explicit parameters", 2, "explicit parameters")


class Pick(LimitMon):
    """automatic choice of parameters for encryption"""
    FLOOR = 32768

    def took(self, E, st, I, c, v):
        if "M" not in st.mon or "S" not in st.mon:
            return
        n = less(E, st, c, v)
        if n is None:
            return
        L, R, _ = n
        q = divide(mono(E, st, L), mono(E, st, R))
        if q is None:
            return
        src = self.sources(st)
        ro, N = {}, None
        for x, e in q[1].items():
            if x in src:
                ro[src[x]] = ro.get(src[x], 0) + e
            elif x[0] == "pow2" and N is None:
                N = x
                ro["N"] = e
            else:
                return
        E.cx.ob("choices normalised")
        # in what follows L < R, with L / R = q[0] * product of ro
        if "side" not in st.mon and "N" not in ro:
            if ro == {"S": 1, "t": 1}:
                st.mon["floor"] = ("lt", 1 / q[0])
            elif ro == {"S": -1, "t": -1}:
                st.mon["floor"] = ("ge", q[0])
            elif ro in ({"S": 1, "t": 1, "M": -1}, {"M": -1}):
                st.mon["side"] = ("cpu", 1 / q[0], "S" in ro)
            elif ro in ({"S": -1, "t": -1, "M": 1}, {"M": 1}):
                st.mon["side"] = ("mem", q[0], "S" in ro)
            return
        inv = {k: -e for k, e in ro.items()}
        if "side" not in st.mon:
            return
        side = st.mon["side"][0]
        low = st.mon.get("floor", ("",))[0] == "lt"
        bound = {"M": 1} if side == "mem" else {} if low else {"S": 1, "t": 1}
        if ro in (bound, dict(bound, N=-1)) and (N or bound):
            st.mon["exit"] = (q[0], N)      # bound < N
        elif inv in (bound, dict(bound, N=-1)) and (N or bound):
            st.mon.pop("exit", None)        # N <= bound: keep looking
            st.mon["last"] = (1 / q[0], N)
        elif side == "mem" and (not low or c[0] == "cmp" and c[1][0] == "f"):
            cap = {} if low else {"S": 1, "t": 1}
            if ro == dict(cap, N=-1) or not N and ro == cap:
                st.mon["cap"] = q[0]        # the CPU limit is below the maximum of r*p
            elif inv == dict(cap, N=-1) or not N and inv == cap:
                st.mon["cap"] = None

    def kdf(self, E, st, I, a):
        if E.decide(st, T.mkcmp("eq", self.init(O_LOGN, 4), C(0, 32))) != 1:
            return
        E.cx.ob("automatic choices")
        say = lambda m: E.report(st, "PICK", I, m)
        ln = self.par(E, st, O_LOGN, 4)
        r = E.constval(st, self.par(E, st, O_R, 4))
        p = self.par(E, st, O_P, 4)
        x, y = E.rng(st, ln), E.rng(st, p)
        if x.ulo < 1 or x.uhi > 63:
            return say("log2 N can be %d..%d, outside of 1..63" % (x.ulo, x.uhi))
        if r is None or r < 1:
            rr = E.rng(st, self.par(E, st, O_R, 4))
            if rr.ulo < 1 or rr.uhi * y.uhi >= 1 << 30:
                say("r is not known to be valid")
            return
        fl, side = st.mon.get("floor"), st.mon.get("side")
        if side is None:
            return say("it was not determined which of the memory and CPU limits is the "
                       "stronger one")
        low = fl is not None and fl[0] == "lt"
        if fl is None or fl[1] != self.FLOOR:
            say("the CPU limit is not raised to at least %d" % self.FLOOR)
        if side[2] != (not low) or side[1] != (Fraction(1, 32) if side[2] else
                                               Fraction(1, 32 * self.FLOOR)):
            say("the memory and CPU limits are compared in the wrong proportion")
        lc, pc = E.constval(st, ln), E.constval(st, p)
        N = ("pow2", leaf(ln))
        name = "CPU" if side[0] == "cpu" else "memory"
        E.cx.ob("choices limited by " + name)
        k = 4 * r if side[0] == "cpu" else 128 * r
        if lc is not None and low and side[0] == "cpu":
            if not (k << lc) <= self.FLOOR < (2 * k << lc):
                say("with the minimal CPU limit, N = 2^%d is not the largest power of two "
                    "with 4Nr <= 2^15" % lc)
        elif lc == 63:
            pass
        elif "exit" not in st.mon:
            if x.ulo < 63:
                say("N is not chosen by comparing it with the %s limit" % name)
        else:
            c, n = st.mon["exit"]
            if low and side[0] == "cpu":
                c /= self.FLOOR
            if n is None and lc is not None:
                c *= 1 << lc
            if n is None and lc is None or n is not None and n != N and lc is None or \
                    c != Fraction(1, 2 * k):
                say("N is not the largest power of two within the %s limit: it is above "
                    "%s of it, instead of above 1/%d" % (name, c, 2 * k))
        if side[0] == "cpu":
            if pc != 1:
                say("p is not 1 although the CPU limit is the stronger one")
            return
        cap = st.mon.get("cap", 0)
        if cap == 0 and pc is None:
            return say("r*p can reach 2^30")
        if cap is None:
            if pc is None or r * pc >= 1 << 30:
                say("r*p can reach 2^30")
            elif r * (pc + 1) < 1 << 30:
                say("p is smaller than the CPU limit and r*p < 2^30 require")
            return
        if pc is not None and r * pc < 1 << 30:
            if not low or lc is None or pc != (self.FLOOR >> lc) // (4 * r):
                say("p is a constant although the memory limit is the stronger one")
            return
        m = mono(E, st, p)
        e, src = {}, self.sources(st)
        for z, v in (m[1].items() if m else ()):
            e[src.get(z, "N" if z == N else "?")] = v
        want = Fraction(1, 4 * r)
        if lc is not None:
            want /= 1 << lc
        if low:
            want *= self.FLOOR
        full = ({} if low else {"S": 1, "t": 1}) | ({} if lc is not None else {"N": -1})
        if m is None or e != full or m[0] != want:
            say("p is not the CPU limit divided by 4*N*r")
        elif cap:
            # CPU limit / N * cap' < 1 was established
            c = cap
            if low:
                c /= self.FLOOR
            if lc is not None:
                c *= 1 << lc
            if c < Fraction(1, 4 << 30):
                say("r*p can reach 2^30")


@check("P12", "path-sensitive abstract interpretation with canonicalised limit formulas",
       ENGINE + """At the key derivation of an encryption without explicit parameters, value
       ranges must put log2 N into 1..63 and r*p below 2^30, and the normalised comparisons and
       divisions through which N and p were chosen must be those of the documented rule.""")
def p12(cx):
    cx.rule("PICK: automatically chosen parameters are valid and derived from the memory and "
            "CPU limits by the documented formulas")
    cx.rule("memory, rate: the limits are those of the system, as in P33")
    system.memory(cx)
    system.speed(cx)
    cx.run("scryptenc_file", core_models(), [Pick(4, 6)])
    cx.run("scryptenc_buf", core_models(), [Pick(5, 7)])
    cx.need("choices limited by CPU", 2, "CPU-limited choices")
    cx.need("choices limited by memory", 2, "memory-limited choices")
