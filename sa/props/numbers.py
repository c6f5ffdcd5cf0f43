"""Numbers: what is parsed from and printed to text."""
import re

import engine
import models as M
import terms as T
from engine import Monitor, Outcome
from models import fork
from terms import C, ZERO
from . import check
from .secrets import evaluate

MAX = (1 << 64) - 1
MULT = {"": 1, "k": 10**3, "M": 10**6, "G": 10**9, "T": 10**12, "P": 10**15, "E": 10**18}
FORM = re.compile(r"([0-9]+) ?([kMGTPE]?)B?", re.S)


def meaning(s):
    m = FORM.fullmatch(s)
    if not m:
        return None
    n = int(m.group(1)) * MULT[m.group(2)]
    return n if n <= MAX else None


def value(t, env):
    """evaluate(), with unknowns that have names, and divisions"""
    k = t[0]
    if k == "c":
        return t[1]
    if k == "s":
        return env.get(t[1])
    if k == "by":
        v = value(t[1], env)
        return None if v is None else v >> (8 * t[2]) & 255
    if k == "cat":
        xs = [value(x, env) for x in t[2]]
        return None if None in xs else sum(x << (8 * i) for i, x in enumerate(xs))
    if k == "lin":
        xs = [(value(x, env), c) for x, c in t[3]]
        if any(v is None for v, _ in xs):
            return None
        return (t[2] + sum(v * c for v, c in xs)) & (1 << t[1]) - 1
    if k == "cmp":
        a, b = value(t[2], env), value(t[3], env)
        if a is None or b is None:
            return None
        return evaluate(t[:2] + (C(a, T.width(t[2])), C(b, T.width(t[3]))), {})
    if k != "o":
        return None
    xs = [value(x, env) for x in t[3]]
    if None in xs:
        return None
    w = T.width(t)
    if t[1] in ("udiv", "urem"):
        return None if not xs[1] else xs[0] // xs[1] if t[1] == "udiv" else xs[0] % xs[1]
    if t[1] in ("sdiv", "srem"):
        a, b = (v - (1 << w) if v >> (w - 1) else v for v in xs)
        if not b:
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return (q if t[1] == "sdiv" else a - q * b) & (1 << w) - 1
    return evaluate(t[:3] + (tuple(C(v, T.width(y)) for v, y in zip(xs, t[3])),), {})


def strfun(kind):
    """string functions on characters that are known or can be told apart; else the usual model"""
    rest = M.LIBC[kind]

    def f(E, st, I, a):
        def at(p, i):
            return E.load(st, T.add(p, C(i, 64), 64), 1)

        def eq(x, y):
            return E.decide(st, T.mkcmp("eq", x, y))

        def members(p):
            out = []
            for i in range(40):
                out.append(at(p, i))
                z = eq(out[-1], C(0, 8))
                if z:
                    return out[:-1]
                if z is None:
                    return None
            return None
        p = E.toptr(a[0])
        if kind in ("strchr", "memchr"):
            n = 40 if kind == "strchr" else E.constval(st, a[2])
            c = T.trunc(a[1], 8)
            for i in range(min(40, n or 0)):
                x = at(p, i)
                e, z = eq(x, c), eq(x, C(0, 8))
                if e is None or kind == "strchr" and not e and z is None:
                    return rest(E, st, I, a)
                if e:
                    return Outcome(st, T.add(p, C(i, 64), 64), "any")
                if kind == "strchr" and z:
                    return Outcome(st, ZERO, "any")
            return Outcome(st, ZERO, "any") if kind == "memchr" and n is not None and n <= 40 \
                else rest(E, st, I, a)
        s = members(p)
        if s is None:
            return rest(E, st, I, a)
        if kind == "strlen":
            return Outcome(st, C(len(s), 64), "any")
        w = members(E.toptr(a[1]))
        if w is None:
            return rest(E, st, I, a)
        for i, x in enumerate(s):
            es = [eq(x, y) for y in w]
            if not any(es) and None in es:
                # a digit among ten of them
                r = [E.decide(st, T.mkcmp(o, x, C(v, 8))) for o, v in (("uge", 48), ("ule", 57))]
                if r == [1, 1] and all(C(d, 8) in w for d in range(48, 58)):
                    es = [1]
                else:
                    return rest(E, st, I, a)
            if any(es) != (kind == "strspn"):
                return Outcome(st, C(i, 64), "any")
        return Outcome(st, C(len(s), 64), "any")
    return f


STR = {k: strfun(k) for k in ("strchr", "memchr", "strlen", "strspn", "strcspn")}


def ctype(E, st, I, a):
    """the table behind isdigit() and the like"""
    p = ("p", ("arg", 91), ZERO)
    t = ("p", ("arg", 90), ZERO)
    if not st.x.get("ctype"):
        st.x["ctype"] = 1
        E.store(st, p, 8, t)
        for c in range(-128, 256):
            ch = chr(c) if 0 <= c < 128 else "\x80"
            v = 0 if ch == "\x80" else ch.isupper() * 256 | ch.islower() * 512 | ch.isalpha() * 1024 | \
                ch.isdigit() * 2048 | (ch in "0123456789abcdefABCDEF") * 4096 | \
                (ch in " \t\n\v\f\r") * 8192 | (32 <= c < 127) * 16384 | \
                (32 < c < 127) * 32768 | (ch in " \t") * 1 | (c < 32 or c == 127) * 2 | \
                (32 < c < 127 and not ch.isalnum()) * 4 | ch.isalnum() * 8
            E.store(st, ("p", ("arg", 90), C(2 * c & MAX, 64)), 2, C(v, 16))
    return Outcome(st, p, "any")


STR["__ctype_b_loc"] = ctype


def known(t):
    return all(k[0] in ("digit", "arg", "g") for k in T.atoms(t)) and not T.has_top(t)


class Parsed(Monitor):
    def __init__(self):
        self.out = []
        self.vague = False

    def took(self, E, st, I, cond, v):
        if not known(cond):
            self.vague = True

    def ret(self, E, st, val):
        self.out.append((E.constval(st, val), E.load(st, ("p", ("arg", 1), ZERO), 8)))


def word(cx, chars):
    """the outcomes of parsing a word; a character is a number, or None for any digit"""
    mon = Parsed()

    def setup(E, st):
        E.concrete = 1000
        p = ("p", ("arg", 0), ZERO)
        for i, c in enumerate(list(chars) + [0]):
            t = C(c, 8) if c is not None else ("s", ("digit", i), 8)
            if c is None:
                E.assume(st, T.mkcmp("uge", t, C(48, 8)), 1)
                E.assume(st, T.mkcmp("ule", t, C(57, 8)), 1)
            E.store(st, T.add(p, C(i, 64), 64), 1, t)
    E = cx.run("humansize_parse", dict(M.models(), **STR), [mon], setup=setup)
    del cx.runs[20:]
    return mon.out, mon.vague or bool(E.unmodelled)


def show(chars):
    return "'%s'" % "".join("#" if c is None else chr(c) if 32 <= c < 127 else "\\x%02x" % c
                            for c in chars)


def spell(chars, digits):
    it = iter(digits)
    return [c if c is not None else ord(next(it)) for c in chars]


def parse(cx, chars):
    """this word is parsed as it should be, whatever its digits"""
    cx.ob("words parsed")
    n = sum(c is None for c in chars)
    out, vague = word(cx, chars)
    tries = ["0" * n, "9" * n, "1" + "0" * (n - 1)] if n else [""]
    tries += ["0" * i + d + "0" * (n - i - 1) for i in range(n) for d in "157"]
    tries = sorted({t[:n] for t in tries})
    ok = {rc == 0 for rc, _ in out}
    if None in {rc for rc, _ in out} or len(ok) != 1 or vague:
        # not decided for all digits at once
        if n:
            for t in tries[:6]:
                parse(cx, spell(chars, t))
        else:
            cx.notes.append("cannot decide what %s is parsed as" % show(chars))
            cx.ob("words undecided")
        return
    ok = ok.pop()
    for t in tries:
        s = "".join(map(chr, spell(chars, t)))
        w = meaning(s)
        if ok != (w is not None):
            cx.violation("parsing", "humansize_parse", "%s is %s" % (
                show([ord(c) for c in s]), "accepted" if ok else "refused"))
            return
        if not ok:
            continue
        for _, v in out:
            it = iter(t)
            env = {("digit", i): ord(next(it)) for i, c in enumerate(chars) if c is None}
            g = value(v, env)
            if g is None and n:
                for t in tries[:6]:
                    parse(cx, spell(chars, t))
                return
            if g is None:
                cx.notes.append("the value of %s is not a known expression" % show(chars))
                cx.ob("words undecided")
                return
            if g != w:
                cx.violation("parsing", "humansize_parse", "'%s' is parsed as %d" % (s, g))
                return


def parsing(cx):
    D = None
    o = [ord(c) for c in " kMGTPEBbKx5"]
    for i in (1, 2):
        for c in range(1, 256):
            parse(cx, [D] * i + ([D] if 48 <= c <= 57 else [c]))
    for i in range(0, 20):
        parse(cx, [D] * i)
    for a in o:
        for b in o:
            parse(cx, [D] + [a, b])
            parse(cx, [a, b])
    for a in map(ord, " kEBx5"):
        for b in map(ord, " MBx"):
            for c in map(ord, " GBx5"):
                parse(cx, [D, a, b, c])
    for c in range(1, 256):
        if not 48 <= c <= 57:
            parse(cx, [c])
            parse(cx, [c, 53])
    for p in "kMGTPE":
        parse(cx, [D, D, D, 32, ord(p), 66])
        parse(cx, [D, 32, ord(p), 66, 66])
    # the limits
    for p, m in MULT.items():
        for k in (MAX // m - 1, MAX // m, MAX // m + 1, MAX // m + 10, 10 * (MAX // m),
                  10 * (MAX // m) + 9, 1 << 64, (1 << 64) + 1, (1 << 64) * 10, 10**20, 10**25,
                  (MAX // m | 7) + 1, MAX, MAX - 1, MAX + 1 + m):
            parse(cx, [ord(c) for c in "%d%s" % (k, p)])
    for s in ("18446744073709551609", "18446744073709551610", "18446744073709551619",
              "18446744073709551620", "18446744073709551699", "184467440737095516150",
              "00000000000000000000000000001", "99999999999999999999", "0E", "0 EB"):
        parse(cx, [ord(c) for c in s])


# -- printing -----------------------------------------------------------------------------------

def text(size):
    if size < 1000:
        return "%d B" % size
    n, k = size // 100, 1
    while n >= 10000:
        n //= 1000
        k += 1
    u = " kMGTPE"[k]
    return "%d.%d %sB" % (n // 10, n % 10, u) if n < 100 else "%d %sB" % (n // 10, u)


class Printed(Monitor):
    def __init__(self):
        self.out = []

    def pre(self, E, st, I, fn, a):
        at = {"asprintf": 1, "snprintf": 2, "sprintf": 1, "libcperciva_asprintf": 1}.get(fn)
        if at is not None:
            self.out.append((M.cstr(E, st, a[at]), list(a[at + 1:])))


def render(fmt, args, env):
    """what printf makes of it, None if unknown"""
    out, k, pos = "", 0, 0
    for m in re.finditer(r"%([-+ #0-9.]*)(l|ll|j|z|h|hh|t)?([a-zA-Z%])", fmt):
        out += fmt[pos:m.start()]
        pos = m.end()
        if m.group(3) == "%":
            out += "%"
            continue
        if k >= len(args) or m.group(3) not in "diuxXoc":
            return None
        v = value(args[k], env)
        k += 1
        if v is None:
            return None
        w = 64 if m.group(2) in ("l", "ll", "j", "z", "t") else 32
        v &= (1 << w) - 1
        if m.group(3) in "di" and v >> (w - 1):
            v -= 1 << w
        try:
            out += ("%" + m.group(1) + m.group(3)) % (chr(v & 255) if m.group(3) == "c" else v)
        except (ValueError, TypeError):
            return None
    return out + fmt[pos:]


def printing(cx):
    def sizes(lo, hi, points, deep=False):
        mon = Printed()

        def setup(E, st):
            E.concrete = 1000
            if lo != hi:
                t = ("s", ("arg", 0), 64)
                E.assume(st, T.mkcmp("uge", t, C(lo, 64)), 1)
                E.assume(st, T.mkcmp("ule", t, C(hi, 64)), 1)
        E = cx.run("humansize", M.models(drop=("humansize",)), [mon], setup=setup,
                   args=[C(lo, 64) if lo == hi else None])
        del cx.runs[20:]
        if len(mon.out) != 1 or not isinstance(mon.out[0][0], (bytes, str)):
            if lo == hi:
                cx.notes.append("cannot decide what is printed for %d" % lo)
                cx.ob("sizes undecided")
            else:
                for p in points[:: max(1, len(points) // 8)]:
                    sizes(p, p, [p])
            return
        f, a = mon.out[0]
        f = f.decode(errors="replace") if isinstance(f, bytes) else f
        for p in points:
            got = render(f, a, {("arg", 0): p})
            if got is None:
                cx.notes.append("cannot decide what is printed for %d" % p)
                cx.ob("sizes undecided")
                return
            cx.ob("sizes printed")
            if got != text(p):
                cx.violation("printing", "humansize", "%d is printed as '%s' instead of '%s'" %
                             (p, got, text(p)))
                return
    sizes(0, 9, list(range(10)))
    for e in range(1, 20):
        lo, hi = 10**e, min(10**(e + 1) - 1, MAX)
        step = max(1, 10**(e - 2))
        pts = sorted({p for q in range(lo, hi + 1, step) for p in (q - 1, q, q + 1)
                      if lo <= p <= hi} | {lo, hi})
        sizes(lo, hi, pts)


# -- parsenum -----------------------------------------------------------------------------------

INF = float("inf")
NAN = float("nan")


def enum(cx):
    """which values are accepted, in terms of their order with the bounds"""
    ERR = ("p", ("g", "errno"), ZERO)

    def run(fn, val, args, end, lib, want, what):
        out = []

        class Mon(Monitor):
            def ret(self, E, st, v):
                e = E.load(st, ERR, 4)
                out.append((E.constval(st, e), v))

        def conv(E, st, I, a):
            # no number, garbage after it, or a number up to the end
            p = E.toptr(a[0])
            E.store(st, a[1], 8, T.add(p, C(0 if end == "none" else 3, 64), 64), I)
            if lib:
                E.store(st, ERR, 4, C(34, 32), I)
            return Outcome(st, val, "any")

        def setup(E, st):
            E.store(st, ERR, 4, C(0, 32))
            E.store(st, ("p", ("arg", 0), C(3, 64)), 1, C(0 if end == "all" else 120, 8))
            E.store(st, ("p", ("arg", 0), ZERO), 1, C(120 if end == "none" else 49, 8))
        d = M.models()
        for n in ("strtod", "strtoumax", "strtoimax", "strtoul", "strtoull", "strtol"):
            d[n] = conv
        E = cx.run(fn, d, [Mon()], setup=setup, args=[None] + args)
        del cx.runs[20:]
        got = {None if e is None else e == 0 for e, _ in out}
        cx.ob("cases of bounds")
        if got != {want}:
            if None in got or len(got) > 1 or E.unmodelled:
                cx.notes.append("%s: cannot decide %s" % (fn, what))
                cx.ob("bounds undecided")
                return
            cx.violation("bounds", fn, "%s is %s" % (what, "refused" if want else "accepted"))
        elif want and any(v != val for _, v in out):
            cx.violation("bounds", fn, "%s is returned as something else" % what)
    F = lambda x: ("fp", x, 64)
    for fn in ("parsenum_float", "parsenum_signed", "parsenum_unsigned"):
        if not cx.has(fn):
            cx.notes.append("no %s()" % fn)
            continue
        n = len(cx.func(fn).params)
        if n != {"parsenum_float": 4, "parsenum_signed": 5, "parsenum_unsigned": 6}[fn]:
            cx.notes.append("%s() has other parameters" % fn)
            continue
        if fn == "parsenum_float":
            cases = [(x, lo, hi) for lo, hi in ((0.0, 0.5), (0.0, INF), (-INF, INF), (-1.5, 7.0),
                                                 (2.0, 2.0))
                     for x in (NAN, -INF, INF, -1.5, -0.5, 0.0, 0.25, 0.5, 0.75, 2.0, 7.0, 7.5)]
            mk = lambda x, lo, hi, tr: (F(x), [F(lo), F(hi), C(tr, 32)])
        elif fn == "parsenum_signed":
            cases = [(x, lo, hi) for lo, hi in ((-5, 5), (0, 10), (-(1 << 63), (1 << 63) - 1),
                                                 (3, 3), (-9, -2))
                     for x in {lo, hi, lo - 1, hi + 1, 0, -1, 4} if -(1 << 63) <= x < 1 << 63]
            mk = lambda x, lo, hi, tr: (C(x & MAX, 64), [C(lo & MAX, 64), C(hi & MAX, 64),
                                                          C(10, 32), C(tr, 32)])
        else:
            cases = [(x, lo, hi) for lo, hi in ((0, 255), (1, 32), (10, 40), (0, MAX), (7, 7),
                                                 (0, 300), (1 << 40, 1 << 41))
                     for x in {lo, hi, lo - 1, hi + 1, 0, 1, 255, 256, MAX} if 0 <= x <= MAX]
            tm = lambda hi: 255 if hi == 300 else MAX
            mk = lambda x, lo, hi, tr: (C(x, 64), [C(lo, 64), C(hi, 64), C(tm(hi), 64),
                                                    C(0, 32), C(tr, 32)])
        for x, lo, hi in cases:
            for tr in (0, 1):
                for end in ("all", "some", "none"):
                    if end != "all" and (x, lo, hi) not in cases[1:4]:
                        continue
                    v, args = mk(x, lo, hi, tr)
                    want = lo <= x <= hi and (end == "all" or end == "some" and bool(tr))
                    if fn == "parsenum_unsigned" and x > tm(hi):
                        want = False
                    run(fn, v, args, end, False, want, "%s within %s to %s%s" % (
                        x, lo, hi, {"all": "", "some": " with text after it", "none":
                                    " with no number"}[end] +
                        (" (text after it allowed)" if tr else "")))
        # what the conversion refuses because it does not fit
        x = cases[0]
        big = {"parsenum_float": F(INF), "parsenum_signed": C((1 << 63) - 1, 64),
               "parsenum_unsigned": C(MAX, 64)}[fn]
        lo, hi = {"parsenum_float": (-INF, INF), "parsenum_signed": (-(1 << 63), (1 << 63) - 1),
                  "parsenum_unsigned": (0, MAX)}[fn]
        run(fn, big, mk(x[0], lo, hi, 0)[1], "all", True, False, "a number that does not fit")


@check("P32", "abstract interpretation of parsing and printing over classes of words and "
       "intervals of sizes, compared with a grammar",
       """Words are sequences of given characters and of digits of unknown value; what they are
       parsed as is a linear expression over those digits. Sizes are intervals between powers
       of ten; what is printed is an expression over the size. Bounds of numbers are compared
       in each order that value and bounds can have.""",
       ["strtod(), strtoumax() and strtoimax() convert correctly"])
def p32(cx):
    cx.rule("parsing: a size is accepted exactly if it is digits, an optional space, an optional "
            "SI prefix and an optional B and fits into 64 bits; its value is the number times "
            "the prefix")
    cx.rule("printing: a size is printed as its first two or three digits, truncated, with "
            "the right SI prefix")
    cx.rule("bounds: a number is accepted exactly if there is one, nothing unwanted follows it "
            "and it is within the bounds; what is not a number is not within any")
    parsing(cx)
    printing(cx)
    enum(cx)
    cx.need("words parsed", 800, "words")
    cx.need("sizes printed", 5000, "sizes")
    cx.need("cases of bounds", 200, "cases of values and bounds")
    und = sum(cx.obl.get(k, 0) for k in ("words undecided", "sizes undecided",
                                         "bounds undecided"))
    if und > 200:
        cx.broken("too many words, sizes or numbers cannot be decided")
