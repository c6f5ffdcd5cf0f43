"""What the system is asked: memory available, speed."""
import random

import models as M
import terms as T
from engine import Monitor, Outcome
from terms import C, ZERO
from . import check
from . import numbers

ERR = ("p", ("g", "errno"), ZERO)
ALL1 = (1 << 64) - 1


def value(t, env):
    """numbers.value(), with floating point"""
    k = t[0]
    if k == "fp":
        return t[1] if isinstance(t[1], float) else None
    if k == "s" and t[1] in env:
        return env[t[1]]
    if k == "lin":
        xs = [(value(x, env), c) for x, c in t[3]]
        if any(v is None or isinstance(v, float) for v, _ in xs):
            return None
        return (t[2] + sum(v * c for v, c in xs)) & (1 << t[1]) - 1
    if k == "cmp":
        a, b = value(t[2], env), value(t[3], env)
        if a is None or b is None:
            return None
        if t[1][0] == "f":
            return fcmp(t[1][1:], a, b)
        w = T.width(t[2])
        return numbers.value(t[:2] + (C(a, w), C(b, w)), {})
    if k == "o" and t[1] == "not":
        v = value(t[3][0], env)
        return None if v is None else 1 - v if T.width(t[3][0]) == 1 else ~v & (1 << t[2]) - 1
    if k == "by":
        v = value(t[1], env)
        return None if v is None or isinstance(v, float) else v >> (8 * t[2]) & 255
    if k == "cat":
        xs = [value(x, env) for x in t[2]]
        return None if None in xs else sum(x << (8 * i) for i, x in enumerate(xs))
    if k != "o":
        return numbers.value(t, env)
    xs = [value(x, env) for x in t[3]]
    if None in xs:
        return None
    w, op = t[2], t[1]
    sg = lambda v, w: v - (1 << w) if v >> (w - 1) & 1 else v
    if op == "uitofp":
        return float(xs[0])
    if op == "sitofp":
        return float(sg(xs[0], T.width(t[3][0])))
    if op in ("fptoui", "fptosi"):
        return int(xs[0]) & (1 << w) - 1 if abs(xs[0]) < 2.0**64 else None
    if op in ("fpext", "fptrunc"):
        return xs[0]
    if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
        try:
            return {"fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y,
                    "fmul": lambda x, y: x * y, "fdiv": lambda x, y: x / y,
                    "fneg": lambda x: -x}[op](*xs)
        except ZeroDivisionError:
            return None
    if any(isinstance(x, float) for x in xs):
        return None
    return numbers.value(t[:3] + (tuple(C(v, T.width(y)) for v, y in zip(xs, t[3])),), {})


def fcmp(p, a, b):
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b,
            "ge": a >= b}.get(p[1:] if len(p) == 3 else p)


def holds(conds, env):
    """can a path on which these decisions are taken be the one taken here"""
    for c, v in conds:
        x = value(c, env)
        if x is not None and int(x) != v:
            return False
    return True


class Left(Monitor):
    """what is left at the given address"""
    def __init__(self, arg, key=None):
        self.out, self.arg, self.key = [], arg, key

    def took(self, E, st, I, cond, v):
        st.mon["decided"] = st.mon.get("decided", ()) + ((cond, int(v)),)

    def ret(self, E, st, val):
        self.out.append((E.constval(st, val), E.load(st, ("p", ("arg", self.arg), ZERO), 8),
                         st.mon.get("decided", ()), st.mon.get(self.key) if self.key else None))


def memory(cx):
    """RAM as the kernel tells in two ways, limits of the address space and resident set"""
    WHO = ("ram", "as", "rss", "pages")
    rnd = random.Random(5)

    def case(rank, unit, maxmem, frac, fail=None):
        """rank: for each, the exponent of its interval, or None for no limit"""
        iv = {w: (1 << e, (1 << e + 1) - 1) for w, e in zip(WHO, rank) if e is not None}
        mon = Left(2)

        def sym(E, st, w, n=1):
            t = ("s", ("sys", w), 64)
            lo, hi = iv[w]
            E.assume(st, T.mkcmp("uge", t, C(lo // n, 64)), 1)
            E.assume(st, T.mkcmp("ule", t, C(hi // n, 64)), 1)
            return t

        def bad(E, st, I):
            E.store(st, ERR, 4, C(14, 32), I)
            return Outcome(st, C((1 << I.ty.bits) - 1, I.ty.bits), "fail")

        def sysinfo(E, st, I, a):
            if fail == "sysinfo":
                return bad(E, st, I)
            p = E.toptr(a[0])
            for o in range(0, 112, 8):
                E.store(st, T.add(p, C(o, 64), 64), 8, C(7 << 8, 64), I)
            t = sym(E, st, "ram", unit)
            E.store(st, T.add(p, C(32, 64), 64), 8, t, I)
            E.store(st, T.add(p, C(104, 64), 64), 4, C(unit, 32), I)
            return Outcome(st, C(0, 32), "ok")

        def getrlimit(E, st, I, a):
            if fail == "getrlimit":
                return bad(E, st, I)
            p = E.toptr(a[1])
            w = {9: "as", 5: "rss"}.get(E.constval(st, a[0]))
            t = sym(E, st, w) if w in iv else C(ALL1, 64)
            E.store(st, p, 8, t, I)
            E.store(st, T.add(p, C(8, 64), 64), 8, C(ALL1 if w in iv else 4096, 64), I)
            return Outcome(st, C(0, 32), "ok")

        def sysconf(E, st, I, a):
            n = E.constval(st, a[0])
            if fail == "sysconf":
                return bad(E, st, I)
            if n == 30:
                return Outcome(st, C(4096, 64), "ok")
            if n == 85:
                if "pages" not in iv:
                    return Outcome(st, C(ALL1, 64), "ok")
                return Outcome(st, sym(E, st, "pages", 4096), "ok")
            return Outcome(st, C(100, 64), "any")

        def setup(E, st):
            E.store(st, ERR, 4, C(0, 32))
            E.concrete = 1000
        d = M.models(drop=("memtouse",))
        d.update(sysinfo=sysinfo, getrlimit=getrlimit, getrlimit64=getrlimit, sysconf=sysconf)
        mm = C(maxmem, 64) if not isinstance(maxmem, tuple) else None
        E = cx.run("memtouse", d, [mon], setup=setup, args=[mm, ("fp", frac, 64), None])
        del cx.runs[20:]
        cx.ob("orders of limits")
        if fail:
            if any(rc == 0 for rc, *_ in mon.out):
                cx.violation("unknown memory", "memtouse",
                             "reports success although %s() failed" % fail)
            return
        if not mon.out or any(rc is None for rc, *_ in mon.out):
            cx.notes.append("memtouse: cannot decide what is returned")
            cx.ob("cases undecided")
            return
        for k in range(8):
            env = {}
            for w, (lo, hi) in iv.items():
                n = {"ram": unit, "pages": 4096}.get(w, 1)
                lo, hi = lo // n, hi // n
                env[("sys", w)] = (lo, hi)[k] if k < 2 else rnd.randint(lo, hi)
            lim = [env[("sys", w)] * {"ram": unit, "pages": 4096}.get(w, 1) for w in iv]
            mx = maxmem
            if isinstance(maxmem, tuple):
                mx = rnd.choice((1, maxmem[0], maxmem[1], rnd.randint(*maxmem)))
                env[("arg", 0)] = mx
            want = int(frac * float(min(lim + [ALL1])))
            if mx:
                want = min(want, mx)
            want = max(want, 1 << 20)
            live = [(rc, v) for rc, v, f, _ in mon.out if holds(f, env)]
            what = "with %s, maxmem %d and fraction %s" % (", ".join(
                "%s %d" % (w, env[("sys", w)] * {"ram": unit, "pages": 4096}.get(w, 1))
                for w in iv) or "no limits", mx, frac)
            if any(rc for rc, _ in live):
                cx.violation("memory", "memtouse", "fails %s" % what)
                return
            got = {value(v, env) for _, v in live}
            if not got or None in got or len(got) > 1:
                cx.notes.append("memtouse: cannot decide its result %s" % what)
                cx.ob("cases undecided")
                return
            got = got.pop()
            cx.ob("values compared")
            if abs(got - want) > 1 + want / (1 << 50):
                cx.violation("memory", "memtouse", "allows %d bytes instead of %d %s" %
                             (got, want, what))
                return
    import itertools
    for r in itertools.permutations((24, 28, 32, 36)):
        case(r, 1, 0, 0.5)
        case(r, 4096, (1 << 21, 1 << 34), 0.125)
    for off in range(16):
        r = [None if i and off >> i & 1 else e for i, e in enumerate((34, 30, 28, 36))]
        if not off & 1:
            case(r, 1, 0, 0.5)
            case(r, 4096, 0, 1.0)
            case(r, 1, (1 << 20, 1 << 31), 0.125)
    for small in range(4):
        r = [33] * 4
        r[small] = 16
        case(r, 1, 0, 0.5)
        case(r, 1, 1 << 17, 0.5)
        r[small] = 40
        case(r, 1, (1, 1 << 20), 0.5)
    case([52, None, None, 52], 1, 0, 0.5)
    case([62, None, None, 62], 4096, 0, 0.125)
    for f in ("sysinfo", "getrlimit", "sysconf"):
        case([33] * 4, 1, 0, 0.5, fail=f)


def speed(cx):
    """the rate is that of computations done between two readings of one clock"""
    RES = (("s", ("res", 0), 64), ("s", ("res", 1), 64))

    def analyse(clock, limit, fail=None):
        """clock: the one that works; fail: (function, number of its call) that fails"""
        mon = Left(0, "clk")

        def bad(E, st, I, no):
            E.store(st, ERR, 4, C(no, 32), I)
            return Outcome(st, C((1 << 32) - 1, 32), "fail")

        def count(st, fn):
            m = dict(st.mon.get("calls", ()))
            m[fn] = m.get(fn, 0) + 1
            st.mon["calls"] = tuple(sorted(m.items()))
            return fail == (fn, m[fn])

        def gettime(E, st, I, a):
            c = E.constval(st, a[0])
            if count(st, "clock_gettime"):
                return bad(E, st, I, 5)
            if c == 1 and clock == 0:
                return bad(E, st, I, 22)
            log = st.mon.get("clk", ())
            n = sum(x[0] == "t" for x in log)
            if n >= limit:
                return []
            s, f = ("s", ("clk", n, 0), 64), ("s", ("clk", n, 1), 64)
            E.assume(st, T.mkcmp("ult", f, C(10**9, 64)), 1)
            E.assume(st, T.mkcmp("ult", s, C(1 << 33, 64)), 1)
            p = E.toptr(a[1])
            E.store(st, p, 8, s, I)
            E.store(st, T.add(p, C(8, 64), 64), 8, f, I)
            st.mon["clk"] = log + (("t", c),)
            return Outcome(st, C(0, 32), "ok")

        def getres(E, st, I, a):
            c = E.constval(st, a[0])
            if count(st, "clock_getres"):
                return bad(E, st, I, 5)
            if c == 1 and clock == 0:
                return bad(E, st, I, 22)
            p = E.toptr(a[1])
            for i in (0, 1):
                E.assume(st, T.mkcmp("ult", RES[i], C((2, 10**9)[i], 64)), 1)
                E.store(st, T.add(p, C(8 * i, 64), 64), 8, RES[i], I)
            st.mon["clk"] = st.mon.get("clk", ()) + (("r", c),)
            return Outcome(st, C(0, 32), "ok")

        def scrypt(E, st, I, a):
            if count(st, "crypto_scrypt"):
                return bad(E, st, I, 12)
            v = [E.constval(st, x) for x in a[4:7]]
            n = None if None in v else 4 * v[0] * v[1] * v[2]
            st.mon["clk"] = st.mon.get("clk", ()) + (("n", n),)
            return Outcome(st, C(0, 32), "ok")

        def fma(E, st, I, a):
            if all(x[0] == "fp" and isinstance(x[1], float) for x in a[:3]):
                return Outcome(st, ("fp", a[0][1] * a[1][1] + a[2][1], 64), "any")
            if any(x[0] == "u" for x in a[:3]):
                return Outcome(st, ("u", 64), "any")
            return Outcome(st, ("o", "fadd", 64, (("o", "fmul", 64, tuple(a[:2])), a[2])), "any")

        def setup(E, st):
            E.concrete = 1000
            E.store(st, ERR, 4, C(0, 32))
        d = M.models(drop=("scryptenc_cpuperf",))
        d.update(clock_gettime=gettime, clock_getres=getres, crypto_scrypt=scrypt,
                 warnp=M.m_void, warn0=M.m_void)
        d["llvm.fmuladd"] = fma
        d["llvm.fmuladd.f64"] = fma
        E = cx.run("scryptenc_cpuperf", d, [mon], setup=setup, maxstates=5000)
        del cx.runs[20:]
        return mon.out

    def tv(env, i):
        return env[("clk", i, 0)] + env[("clk", i, 1)] // 1000 / 1e6

    rnd = random.Random(7)
    for clock in (1, 0):
        out = analyse(clock, 7)
        n = 0
        for rc, v, conds, log in out:
            if rc != 0:
                continue
            if any(x[0] in "tr" and x[1] != clock for x in log or ()):
                cx.violation("clock", "scryptenc_cpuperf", "times are read from clock %s but "
                             "compared with those of clock %d" % (sorted(
                                 {x[1] for x in log if x[0] in "tr"} - {clock}), clock))
                continue
            ops, t, N = [], 0, 0
            for x in log:
                if x[0] == "t":
                    ops.append(N)
                elif x[0] == "n":
                    N = None if N is None or x[1] is None else N + x[1]
            if None in ops:
                cx.notes.append("parameters of crypto_scrypt() in the measurement are unknown")
                cx.ob("cases undecided")
                continue
            envs = []
            for k in range(6):
                env = {("res", 0): 0, ("res", 1): rnd.choice((1, 1000, 4000000))}
                s, f = rnd.randint(1, 10**6), rnd.randint(0, 10**9 - 1)
                for i in range(7):
                    env[("clk", i, 0)], env[("clk", i, 1)] = s, f
                    f += rnd.choice((10**6, 5 * 10**7, 9 * 10**8, rnd.randint(10**5, 10**9)))
                    s, f = s + f // 10**9, f % 10**9
                envs.append(env)
            vals = [value(v, env) for env in envs]
            n += 1
            cx.ob("paths of the measurement")
            if None in vals:
                cx.notes.append("the measured rate is not a known expression")
                cx.ob("cases undecided")
                continue
            pairs = [(i, j) for j in range(len(ops)) for i in range(j) if all(
                abs(x * (tv(e, j) - tv(e, i)) - (ops[j] - ops[i])) <= (ops[j] - ops[i]) * 1e-4
                for x, e in zip(vals, envs)) and ops[j] > ops[i]]
            if not pairs:
                e = envs[0]
                cx.violation("rate", "scryptenc_cpuperf", "after %d readings of the clock, the rate "
                             "given is not that of the computations between any two of them "
                             "(%.1f for %d in %.6f s)" % (len(ops), vals[0], ops[-1] - ops[0],
                                                         tv(e, len(ops) - 1) - tv(e, 0)))
                continue
            # is the time taken longer than the clock's resolution?
            i, j = pairs[0]
            cx.ob("intervals measured")
            for k in range(8):
                env = dict(envs[k % 6])
                dt = (0, 0, 1000, 1000000, 3000000, 2000000, 500000, 10**9)[k]
                env[("res", 1)] = 4000000 + k * 10**6 if k else 0
                if k == 7:
                    env[("res", 0)], env[("res", 1)] = 1, 500
                for m in range(j, 7):
                    f = env[("clk", i, 1)] + dt
                    env[("clk", m, 0)] = env[("clk", i, 0)] + f // 10**9
                    env[("clk", m, 1)] = f % 10**9
                for m in range(i + 1, j):
                    env[("clk", m, 0)], env[("clk", m, 1)] = env[("clk", i, 0)], env[("clk", i, 1)]
                if holds(conds, env):
                    cx.violation("resolution", "scryptenc_cpuperf", "a rate is given for %d ns "
                                 "although the clock's resolution is %d ns" %
                                 (dt, env[("res", 0)] * 10**9 + env[("res", 1)]))
                    break
            for k in range(6) if j > i + 1 else ():
                # readings far apart, but not the first one
                env = dict(envs[k])
                env[("res", 1)] = (1, 1000, 10**6, 10**8, 5 * 10**8, 9 * 10**8)[k]
                for m in range(i + 1, 7):
                    env[("clk", m, 0)] = env[("clk", i, 0)] + (m - i) * (1 + k) + \
                        (10**6 if m >= j else 0)
                    env[("clk", m, 1)] = env[("clk", i, 1)]
                if holds(conds, env):
                    cx.violation("resolution", "scryptenc_cpuperf", "the measurement goes on after "
                                 "%d s although the clock's resolution is %d ns" %
                                 (1 + k, env[("res", 1)]))
                    break
        if not n and out:
            cx.violation("rate", "scryptenc_cpuperf", "never succeeds with clock %d" % clock)
    for fn, k in (("clock_getres", 1), ("clock_gettime", 1), ("clock_gettime", 2),
                  ("clock_gettime", 3), ("clock_gettime", 4), ("crypto_scrypt", 1),
                  ("crypto_scrypt", 2), ("crypto_scrypt", 3)):
        for rc, _, _, log in analyse(1, 7, (fn, k)):
            cx.ob("failures")
            if rc == 0 and sum(x[0] == {"clock_gettime": "t", "clock_getres": "r"}.get(fn, "n")
                               for x in log or ()) >= k:
                cx.violation("failure", "scryptenc_cpuperf", "succeeds although call %d of %s() "
                             "fails" % (k, fn))


@check("P33", "abstract interpretation over orders of the system's limits and symbolic clock "
       "readings; the result is compared as an expression",
       """The limits the system reports are unknowns in intervals, in every order; what is
       allowed is an expression over them. Clock readings are unknowns; on each path the rate
       returned has to be the expression for the computations done between two readings, and the
       path's conditions have to exclude intervals below the clock's resolution.""",
       ["the kernel reports its limits correctly"])
def p33(cx):
    cx.rule("memory: the memory allowed is the given fraction of the least of physical memory and "
            "the process's limits, at most the given maximum and at least 1 MiB")
    cx.rule("unknown memory: failure to find a limit is reported")
    cx.rule("rate: the speed is the number of computations between two readings of the same "
            "clock over their difference, which is above the clock's resolution")
    memory(cx)
    speed(cx)
    cx.need("orders of limits", 60, "orders of limits")
    cx.need("values compared", 300, "values")
    cx.need("paths of the measurement", 4, "paths")
    cx.need("intervals measured", 4, "intervals")
    if cx.obl.get("cases undecided", 0) > 40:
        cx.broken("too many cases cannot be decided")
