"""Path-sensitive abstract interpreter over the IR.

Domain: value numbering terms (terms.py) x intervals x disequalities, a
byte-accurate memory for constant offsets, and client monitor states
(finite typestate automata).  States with equal abstraction are merged; loops
whose control is not a compile-time constant are joined and widened at their
header per monitor state, so the exploration is a fixpoint over an
over-approximation of all executions.  Functions with a body are inlined,
except those a client gives a contract for (models).
"""
import math
import heapq
import sys
from ir import AnalysisBroken, SETJMP, LONGJMP
import terms as T
from terms import C, ZERO, TRUE, FALSE, width, mask, sgn

sys.setrecursionlimit(20000)


# the standard streams exist
STREAMS = {("init", ("g", s)) for s in ("stdin", "stdout", "stderr")}


class Interval:
    """unsigned and signed interval plus excluded constants"""
    __slots__ = ("ulo", "uhi", "slo", "shi", "ne", "w")

    def __init__(self, w, ulo=None, uhi=None, slo=None, shi=None, ne=frozenset()):
        self.w = w
        self.ulo = 0 if ulo is None else ulo
        self.uhi = mask(w) if uhi is None else uhi
        self.slo = -(1 << (w - 1)) if slo is None else slo
        self.shi = (1 << (w - 1)) - 1 if shi is None else shi
        self.ne = ne

    def tup(self):
        return (self.ulo, self.uhi, self.slo, self.shi, self.ne)

    def copy(self):
        return Interval(self.w, self.ulo, self.uhi, self.slo, self.shi, self.ne)

    def norm(self):
        """mutual refinement; False when empty"""
        w = self.w
        half = 1 << (w - 1)
        for _ in range(3):
            if self.slo >= 0:
                self.ulo = max(self.ulo, self.slo)
                self.uhi = min(self.uhi, self.shi)
            elif self.shi < 0:
                self.ulo = max(self.ulo, self.slo + (1 << w))
                self.uhi = min(self.uhi, self.shi + (1 << w))
            if self.uhi < half:
                self.slo = max(self.slo, self.ulo)
                self.shi = min(self.shi, self.uhi)
            elif self.ulo >= half:
                self.slo = max(self.slo, self.ulo - (1 << w))
                self.shi = min(self.shi, self.uhi - (1 << w))
            while self.ulo in self.ne and self.ulo <= self.uhi:
                self.ulo += 1
            while self.uhi in self.ne and self.ulo <= self.uhi:
                self.uhi -= 1
            while (self.slo & mask(w)) in self.ne and self.slo <= self.shi:
                self.slo += 1
            while (self.shi & mask(w)) in self.ne and self.slo <= self.shi:
                self.shi -= 1
            if self.ulo > self.uhi or self.slo > self.shi:
                return False
        return True

    def full(self):
        w = self.w
        return (self.ulo == 0 and self.uhi == mask(w) and self.slo == -(1 << (w - 1)) and
                self.shi == (1 << (w - 1)) - 1 and not self.ne)


class Obj:
    """abstract memory object; immutable"""
    __slots__ = ("size", "base", "cells", "_h", "const")

    def __init__(self, size, base, cells=(), const=None):
        self.size = size          # bytes or None
        self.base = base          # ('zero',) | ('undef',) | blob key | ('const', ...)
        self.cells = cells        # ((off,len,val)...) sorted, disjoint
        self.const = const
        self._h = hash((size, base, cells))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (isinstance(o, Obj) and self._h == o._h and self.size == o.size and
                self.base == o.base and self.cells == o.cells)

    def gap(self, off, n):
        b = self.base
        if b[0] == "zero":
            return C(0, 8 * n)
        if b[0] == "undef":
            return ("u", 8 * n)
        return ("blob", b, off, n)

    def pieces(self, off, n):
        """[(len, value)] covering [off, off+n)"""
        out = []
        pos = off
        end = off + n
        for (o, l, v) in self.cells:
            if o + l <= pos:
                continue
            if o >= end:
                break
            if o > pos:
                out.append((o - pos, self.gap(pos, o - pos)))
                pos = o
            e = min(end, o + l)
            out.append((e - pos, v if (pos == o and e == o + l) else
                        T.slice_bytes(v, pos - o, e - pos)))
            pos = e
        if pos < end:
            out.append((end - pos, self.gap(pos, end - pos)))
        return out

    def read(self, off, n):
        ps = self.pieces(off, n)
        if len(ps) == 1:
            return ps[0][1]
        # merge
        bs = []
        if n > 64:
            return ("u", 8 * n)
        for l, v in ps:
            if v[0] in ("p", "f", "fp"):
                return ("u", 8 * n)
            bs += T.tobytes(v, l)
        return T.frombytes(bs)

    def content(self, off, n):
        """normalised tuple of (len, value) pieces"""
        out = []
        for l, v in self.pieces(off, n):
            if out:
                pl, pv = out[-1]
                if v[0] == "blob" and pv[0] == "blob" and pv[1] == v[1] and \
                        pv[2] + pv[3] == v[2]:
                    out[-1] = (pl + l, ("blob", pv[1], pv[2], pl + l))
                    continue
                if v[0] == "c" and pv[0] == "c":
                    out[-1] = (pl + l, C(pv[1] | (v[1] << (8 * pl)), 8 * (pl + l)))
                    continue
                if v[0] in ("by", "cat", "o", "s") and pv[0] in ("by", "cat", "o", "s") \
                        and pl + l <= 16:
                    out[-1] = (pl + l, T.frombytes(T.tobytes(pv, pl) + T.tobytes(v, l)))
                    continue
            out.append((l, v))
        # a byte run may have been merged into one wider term; that is canonical
        return tuple(out)

    def write(self, off, n, val):
        cells = []
        for (o, l, v) in self.cells:
            if o + l <= off or o >= off + n:
                cells.append((o, l, v))
                continue
            if o < off:
                cells.append((o, off - o, T.slice_bytes(v, 0, off - o)))
            if o + l > off + n:
                cells.append((off + n, o + l - off - n,
                              T.slice_bytes(v, off + n - o, o + l - off - n)))
        cells.append((off, n, val))
        cells.sort(key=lambda c: c[0])
        return Obj(self.size, self.base, tuple(cells))


class Frame:
    __slots__ = ("func", "ctx", "block", "idx", "prev", "env", "call")

    def __init__(self, func, ctx, call):
        self.func = func
        self.ctx = ctx
        self.block = 0
        self.idx = 0
        self.prev = None
        self.env = {}
        self.call = call

    def copy(self):
        f = Frame(self.func, self.ctx, self.call)
        f.block = self.block
        f.idx = self.idx
        f.prev = self.prev
        f.env = dict(self.env)
        return f


class State:
    __slots__ = ("frames", "mem", "facts", "rel", "mon", "x", "alive", "loops", "trace",
                 "dead", "vers")

    def __init__(self):
        self.vers = {}
        self.frames = []
        self.mem = {}
        self.facts = {}
        self.rel = {}
        self.mon = {}
        self.x = {}
        self.alive = set()
        self.loops = {}
        self.trace = None
        self.dead = False

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rel = dict(self.rel)
        s.mon = dict(self.mon)
        s.x = dict(self.x)
        s.alive = set(self.alive)
        s.loops = dict(self.loops)
        s.trace = self.trace
        s.vers = dict(self.vers)
        return s

    @property
    def top(self):
        return self.frames[-1]

    def note(self, text):
        self.trace = (self.trace, text)

    def path(self, n=14):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Violation:
    def __init__(self, rule, where, msg, path=()):
        self.rule = rule
        self.where = where
        self.msg = msg
        self.path = list(path)

    def key(self):
        return "%s|%s|%s" % (self.rule, self.where, self.msg)

    def __str__(self):
        return "[%s] %s: %s" % (self.rule, self.where, self.msg)


class Monitor:
    name = "mon"

    def start(self, E, st):
        pass

    def pre(self, E, st, I, fn, args):
        pass

    def post(self, E, st, I, fn, args, ret, tag):
        pass

    def ret(self, E, st, val):
        """entry function returns val"""

    def exit(self, E, st, code, I):
        """process exit"""

    def store(self, E, st, I, ptr, n, val):
        pass

    def access(self, E, st, I, ptr, n, kind):
        pass

    def index(self, E, st, I, subs):
        pass

    def branch(self, E, st, I, cond):
        """an undecided branch"""

    def took(self, E, st, I, cond, v):
        """a branch on cond is taken with cond having truth value v"""

    def ubr(self, E, st, I):
        pass


class Outcome:
    __slots__ = ("st", "ret", "tag")

    def __init__(self, st, ret=None, tag=""):
        self.st = st
        self.ret = ret
        self.tag = tag


class Work:
    """states still to run, those inside more loops first"""

    def __init__(self):
        self.h = []
        self.n = 0

    def append(self, st):
        self.n -= 1
        heapq.heappush(self.h, (-len(st.loops), self.n, st))

    def pop(self):
        return heapq.heappop(self.h)[2]

    def __len__(self):
        return len(self.h)


class Engine:
    def __init__(self, prog, models=None, monitors=(), max_steps=3000000, maxstates=250,
                 zero_globals=(), inline_only=None):
        self.prog = prog
        self.models = dict(models or {})
        self.monitors = list(monitors)
        self.max_steps = max_steps
        self.unroll = 0
        # iterations of a loop without any undecided branch before it is summarised
        self.concrete = 300
        self.lens = ()
        self.relate = False
        # objects whose contents are of no interest
        self.blind = lambda o, size: False
        self._inlen = 0
        self.maxstates = maxstates
        self.viol = {}
        self.ctxs = {}
        self.ctxinfo = []
        self.steps = 0
        self.branches = 0
        self.calls = {}          # name -> set of sites
        self.unmodelled = {}
        self.funcs_seen = set()
        self.inlined = {}
        self.paths_done = 0
        self.wild = 0
        self.seen = {}
        self.J = {}
        self.jcount = {}
        self.postlive = {}
        self.taint = set()
        self.thr = {}
        self.zero_globals = set(zero_globals)
        self.outcome_tags = {}
        self.edges = set()
        self.exhausted = False
        self.coarse = True
        self.superseded = 0
        self.work = None

    # -- reporting -----------------------------------------------------------
    def report(self, st, rule, where, msg):
        if hasattr(where, "loc"):
            where = "%s (%s)" % (where.loc, where.func.name)
        v = Violation(rule, where, msg, st.path() if st else ())
        self.viol.setdefault(v.key(), v)

    # -- contexts --------------------------------------------------------------
    def ctx(self, parent, call, func):
        k = (parent, call.uid if call else None, func.key)
        if k not in self.ctxs:
            self.ctxs[k] = len(self.ctxinfo)
            self.ctxinfo.append(k)
        return self.ctxs[k]

    # -- symbols -----------------------------------------------------------------
    def fresh(self, st, I, tag, w):
        key = ("sy", st.top.ctx if st.frames else 0, I.uid if hasattr(I, "uid") else I, tag)
        self.claim(st, key)
        return ("s", key, w)

    def fresh_blob(self, st, I, tag, n):
        key = ("bl", st.top.ctx if st.frames else 0, I.uid if hasattr(I, "uid") else I, tag)
        self.claim(st, key)
        return ("blob", key, 0, n)

    def fresh_base(self, st, I, tag):
        key = ("hv", st.top.ctx if st.frames else 0, I.uid if hasattr(I, "uid") else I, tag)
        self.claim(st, key)
        return key

    def claim(self, st, key):
        """key gets a new meaning: retire its previous one"""
        if key in st.alive:
            self.age(st, [key])
        st.alive.add(key)

    def retire(self, st, uid):
        """what this site produced earlier becomes stale before the site runs again, so
        that the arguments it is about to receive already speak of the old values"""
        ctx = st.top.ctx
        ks = [k for k in st.alive if len(k) > 2 and k[2] == uid and k[1] == ctx and
              k[0] in ("sy", "bl", "hv", "h", "file")]
        if not ks:
            return
        self.age(st, ks)

    DEPTH = 3

    def age(self, st, ks):
        """rename symbols ks to stale ones, shifting older stale ones of the same name"""
        m = {}
        for k in ks:
            m[k] = ("stale", k)
            old = ("stale", k)
            d = 1
            while old in st.alive:
                d += 1
                new = ("stale", k, d) if d <= self.DEPTH else None
                m[old] = new
                if new is None:
                    break
                old = new
        self.rename(st, m)
        st.alive.update(v for v in m.values() if v is not None)

    def rename(self, st, m):
        ks = set(m)

        memo = {}

        def hit(t):
            return not ks.isdisjoint(T.atoms(t))

        def sub(t):
            if not isinstance(t, tuple) or not t:
                return t
            r = memo.get(t)
            if r is not None:
                return r
            if t in m:
                r = m[t]
                return r
            k = t[0]
            if k in ("c", "u", "f", "fp"):
                return t
            if k == "s":
                nk = sub(t[1])
                r = ("s", nk, t[2]) if nk is not None else ("u", t[2])
            elif k == "blob":
                nk = sub(t[1])
                r = ("blob", nk, t[2], t[3]) if nk is not None else ("u", 8 * t[3])
            elif k == "p":
                no = sub(t[1])
                r = ("u", 64) if no is None else ("p", no, sub(t[2]))
            elif k == "lin":
                d = {}
                top = False
                for x, c in t[3]:
                    y = sub(x)
                    if y[0] == "u":
                        top = True
                    kk, dd = T.lin_parts(y, t[1])
                    if kk:
                        top = True
                    for z, c2 in dd.items():
                        d[z] = d.get(z, 0) + c * c2
                r = ("u", t[1]) if top else T.mklin(t[1], t[2], d)
            elif k == "o":
                a = tuple(sub(x) for x in t[3])
                r = ("u", t[2]) if any(x[0] == "u" for x in a) else ("o", t[1], t[2], a)
            elif k == "cmp":
                a, b = sub(t[2]), sub(t[3])
                r = ("u", 1) if a[0] == "u" or b[0] == "u" else ("cmp", t[1], a, b)
            elif k == "cat":
                r = T.frombytes([sub(x) for x in t[2]])
            elif k == "#":
                d = T.DESC[t[1]]
                if not hit(("desc",) + d):
                    r = t
                else:
                    d2 = sub(("desc",) + d)
                    r = None if d2 is None else T.mkdigest(d2[1:])[1]
            elif k == "by":
                a = sub(t[1])
                r = ("u", 8) if a[0] == "u" else ("by", a, t[2])
            else:
                parts = []
                dead = False
                for x in t:
                    y = sub(x) if isinstance(x, tuple) else x
                    if y is None and x is not None:
                        dead = True
                    parts.append(y)
                r = None if dead else tuple(parts)
            memo[t] = r
            return r

        def gen(x):
            if isinstance(x, tuple):
                if not hit(x):
                    return x
                r = sub(x)
                return ("u", 64) if r is None else r
            if isinstance(x, frozenset):
                return frozenset(gen(y) for y in x)
            return x
        for f in st.frames:
            for k, v in f.env.items():
                if hit(v):
                    f.env[k] = gen(v)
        nm = {}
        for o, ob in st.mem.items():
            o2 = sub(o) if hit(o) else o
            if o2 is None:
                continue
            if hit(ob.base) or any(hit(c[2]) for c in ob.cells):
                b2 = sub(ob.base) if hit(ob.base) else ob.base
                if b2 is None:
                    b2 = ("undef",)
                ob = Obj(ob.size, b2, tuple((a, l, gen(v)) for a, l, v in ob.cells))
            if o2 in nm:
                ob = Obj(ob.size, ("undef",))
            nm[o2] = ob
        st.mem = nm
        nf = {}
        for t, iv in st.facts.items():
            if hit(t):
                t2 = sub(t)
                if t2 is None or t2[0] in ("u", "c"):
                    continue
                if t2 in nf:
                    continue
                nf[t2] = iv
            else:
                nf[t] = iv
        st.facts = nf
        nr = {}
        for (a, b, s), v in st.rel.items():
            if hit(a) or hit(b):
                a, b = sub(a), sub(b)
                if a is None or b is None or a[0] == "u" or b[0] == "u":
                    continue
            nr[(a, b, s)] = v
        st.rel = nr
        for k, v in st.mon.items():
            st.mon[k] = gen(v)
        st.x = {gen(k) if isinstance(k, tuple) else k: gen(v) for k, v in st.x.items()}
        al = set()
        for k in st.alive:
            k2 = sub(k) if not ks.isdisjoint(T._key_atoms(k) | {k}) else k
            if k2 is not None:
                al.add(k2)
        st.alive = al

    # -- ranges ------------------------------------------------------------------
    def rng(self, st, t, depth=0):
        w = width(t)
        if t[0] == "c":
            s = sgn(t[1], w)
            return Interval(w, t[1], t[1], s, s)
        iv = Interval(w)
        f = st.facts.get(t)
        if f is not None:
            iv = Interval(w, *f)
        if depth > 8:
            return iv
        k = t[0]
        if k == "o":
            op = t[1]
            a = t[3]
            if op == "zext":
                r = self.rng(st, a[0], depth + 1)
                iv.ulo = max(iv.ulo, r.ulo)
                iv.uhi = min(iv.uhi, r.uhi)
            elif op == "sext":
                r = self.rng(st, a[0], depth + 1)
                iv.slo = max(iv.slo, r.slo)
                iv.shi = min(iv.shi, r.shi)
            elif op == "and":
                ones = mask(w)
                for x in a:
                    r = self.rng(st, x, depth + 1)
                    iv.uhi = min(iv.uhi, r.uhi)
                    # bits which are set in all values of the range
                    d = (r.ulo ^ r.uhi).bit_length()
                    ones &= r.ulo >> d << d
                iv.ulo = max(iv.ulo, ones)
            elif op == "or":
                for x in a:
                    iv.ulo = max(iv.ulo, self.rng(st, x, depth + 1).ulo)
            elif op == "urem" and a[1][0] == "c" and a[1][1]:
                iv.uhi = min(iv.uhi, a[1][1] - 1, self.rng(st, a[0], depth + 1).uhi)
            elif op == "urem":
                iv.uhi = min(iv.uhi, max(0, self.rng(st, a[1], depth + 1).uhi - 1))
            elif op == "udiv":
                x, y = self.rng(st, a[0], depth + 1), self.rng(st, a[1], depth + 1)
                iv.uhi = min(iv.uhi, x.uhi // max(1, y.ulo))
                if y.uhi:
                    iv.ulo = max(iv.ulo, x.ulo // y.uhi)
            elif op == "lshr" and a[1][0] == "c":
                x = self.rng(st, a[0], depth + 1)
                iv.uhi = min(iv.uhi, x.uhi >> a[1][1])
                iv.ulo = max(iv.ulo, x.ulo >> a[1][1])
            elif op == "lshr":
                iv.uhi = min(iv.uhi, self.rng(st, a[0], depth + 1).uhi)
            elif op == "mul":
                x, y = self.rng(st, a[0], depth + 1), self.rng(st, a[1], depth + 1)
                if x.uhi * y.uhi <= mask(w):
                    iv.uhi = min(iv.uhi, x.uhi * y.uhi)
                    iv.ulo = max(iv.ulo, x.ulo * y.ulo)
            elif op == "shl" and a[0][0] == "c":
                y = self.rng(st, a[1], depth + 1)
                if y.uhi < w and (a[0][1] << y.uhi) <= mask(w):
                    iv.ulo = max(iv.ulo, a[0][1] << y.ulo)
                    iv.uhi = min(iv.uhi, a[0][1] << y.uhi)
            elif op == "or":
                x, y = self.rng(st, a[0], depth + 1), self.rng(st, a[1], depth + 1)
                iv.ulo = max(iv.ulo, x.ulo, y.ulo)
                b = max(x.uhi, y.uhi).bit_length()
                iv.uhi = min(iv.uhi, (1 << b) - 1)
        elif k == "lin":
            lo = hi = sgn(t[2], w)
            slo = shi = lo
            for x, c in t[3]:
                r = self.rng(st, x, depth + 1)
                c = sgn(c, w)
                lo += c * (r.ulo if c > 0 else r.uhi)
                hi += c * (r.uhi if c > 0 else r.ulo)
                slo += c * (r.slo if c > 0 else r.shi)
                shi += c * (r.shi if c > 0 else r.slo)
            if 0 <= lo and hi <= mask(w):
                iv.ulo = max(iv.ulo, lo)
                iv.uhi = min(iv.uhi, hi)
            if -(1 << (w - 1)) <= slo and shi < (1 << (w - 1)):
                iv.slo = max(iv.slo, slo)
                iv.shi = min(iv.shi, shi)
            if len(t[3]) == 2 and t[2] == 0 and iv.uhi == mask(w):
                # x - y, where y is known to stay below x
                (x, c), (y, e) = t[3]
                if c == mask(w) and e == 1:
                    x, c, y, e = y, e, x, c
                if c == 1 and e == mask(w):
                    m = self._relmask(st, y, x, "u")
                    if m & ~3 == 0:
                        iv.ulo = max(iv.ulo, int(m == 1))
                        iv.uhi = self.rng(st, x, depth + 1).uhi - self.rng(st, y, depth + 1).ulo
            if 2 <= len(t[3]) <= 3 and st.rel:
                # a + d, where a is known to stay below a constant less d
                for (a, b, sg), m in st.rel.items():
                    if sg == "u" and m & 1 == 0:
                        a, b, m = b, a, m >> 2 | m & 2
                    if sg != "u" or m & ~3 or a[0] == "c" or width(a) != w:
                        continue
                    if a[0] == "lin" and not all(x in t[3] for x in a[3]) or \
                            a[0] != "lin" and (a, 1) not in t[3]:
                        continue
                    d = T.sub(t, a, w)
                    c = T.add(d, b, w)
                    if c[0] == "c" and self.rng(st, d, depth + 1).uhi <= c[1] - (m == 1):
                        iv.uhi = min(iv.uhi, c[1] - (m == 1))
            if len(t[3]) == 2 and t[3][0][1] == t[3][1][1] == 1 and st.rel:
                # x + y, where y is known to stay below a constant less x
                for (a, b, sg), m in st.rel.items():
                    if sg == "u" and m & 1 == 0:
                        a, b, m = b, a, m >> 2 | m & 2
                    if sg != "u" or m & ~3:
                        continue
                    if b[0] == "o" and b[1] == "zext":
                        b = b[3][0]
                    if b[0] != "lin" or len(b[3]) != 1 or b[3][0][1] != mask(b[1]):
                        continue
                    for (x, _), (y, _) in (t[3], t[3][::-1]):
                        x, y = self._untrunc(st, x, depth), self._untrunc(st, y, depth)
                        if y == a and x == self._untrunc(st, b[3][0][0], depth) and \
                                self.rng(st, x, depth + 1).uhi <= b[2]:
                            v = b[2] + t[2] - (m == 1)
                            if v <= mask(w):
                                iv.uhi = min(iv.uhi, v)
            # x - c*(x div c) is a remainder
            for x, c in t[3]:
                if x[0] == "o" and x[1] in ("udiv", "lshr") and x[3][1][0] == "c":
                    m = x[3][1][1]
                    m = 1 << m if x[1] == "lshr" else m
                    if 0 < m <= mask(w) and (c + m) & mask(w) == 0 and \
                            T.add(t, T.mklin(w, 0, {x: m}), w) == x[3][0]:
                        iv.uhi = min(iv.uhi, m - 1)
            # what is known about the same sum with another constant, or its negation
            neg = None
            for q, f in st.facts.items():
                if q[0] == "lin" and len(q[3]) == len(t[3]) and q[3][0][0] == t[3][0][0] and \
                        q[3][0][1] != t[3][0][1]:
                    if neg is None:
                        neg = tuple((x, -c & mask(w)) for x, c in t[3])
                    if tuple((x, c & mask(w)) for x, c in q[3]) == neg:
                        d = sgn((q[2] + t[2]) & mask(w), w)
                        if d - f[1] >= 0 and d - f[0] <= mask(w):
                            iv.ulo = max(iv.ulo, d - f[1])
                            iv.uhi = min(iv.uhi, d - f[0])
                if q is not t and (q[0] == "lin" and q[3] == t[3] or
                                   len(t[3]) == 1 and t[3][0][1] == 1 and q == t[3][0][0]):
                    d = sgn(((q[2] if q[0] == "lin" else 0) - t[2]) & mask(w), w)
                    if f[0] - d >= 0 and f[1] - d <= mask(w):
                        iv.ulo = max(iv.ulo, f[0] - d)
                        iv.uhi = min(iv.uhi, f[1] - d)
        elif k == "cat":
            v = 0
            lo = 0
            for i, b in enumerate(t[2]):
                r = self.rng(st, b, depth + 1)
                v += r.uhi << (8 * i)
                lo += r.ulo << (8 * i)
            iv.uhi = min(iv.uhi, v)
            iv.ulo = max(iv.ulo, lo)
            # the low bytes of a small value
            m = 0
            while m < len(t[2]) and t[2][m][0] == "by" and t[2][m][2] == m and \
                    t[2][m][1] == t[2][0][1]:
                m += 1
            if m and all(b[0] == "c" and b[1] == 0 for b in t[2][m:]):
                r = self.rng(st, t[2][0][1], depth + 1)
                if r.uhi < 1 << (8 * m):
                    iv.uhi = min(iv.uhi, r.uhi)
                    iv.ulo = max(iv.ulo, r.ulo)
            # a zero-extended value: what is known about the value
            m = len(t[2])
            while m and t[2][m - 1] == ("c", 0, 8):
                m -= 1
            if m < len(t[2]):
                for m in range(m, len(t[2])):
                    f = m > 1 and st.facts.get(("cat", 8 * m, t[2][:m]))
                    if f:
                        iv.uhi = min(iv.uhi, f[1])
                        iv.ulo = max(iv.ulo, f[0])
        elif k == "by":
            r = self.rng(st, t[1], depth + 1)
            iv.uhi = min(iv.uhi, r.uhi >> (8 * t[2]))
            if r.uhi < 256 << (8 * t[2]):
                iv.ulo = max(iv.ulo, r.ulo >> (8 * t[2]))
        elif k == "cmp":
            iv.uhi = min(iv.uhi, 1)
        iv.norm()
        return iv

    # -- decide / assume ---------------------------------------------------------
    def decide(self, st, c):
        """1 / 0 / None"""
        k = c[0]
        if k == "c":
            return c[1] & 1
        if k == "u":
            return None
        f = st.facts.get(c)
        if f is not None and f[0] == f[1]:
            return f[0]
        if k == "o":
            if c[1] == "not":
                r = self.decide(st, c[3][0])
                return None if r is None else 1 - r
            if c[1] == "and":
                r = [self.decide(st, x) for x in c[3]]
                if 0 in r:
                    return 0
                return 1 if r == [1, 1] else None
            if c[1] == "or":
                r = [self.decide(st, x) for x in c[3]]
                if 1 in r:
                    return 1
                return 0 if r == [0, 0] else None
            if c[1] == "xor":
                r = [self.decide(st, x) for x in c[3]]
                return None if None in r else r[0] ^ r[1]
            return None
        if k != "cmp":
            return None
        pred, a, b = c[1], c[2], c[3]
        if pred[0] == "f":
            v = st.rel.get((a, b, pred))
            if v is not None:
                return v
            return None
        if pred in ("eq", "ne"):
            # a fresh object is different from whatever was stored before this code ran
            for p, q in ((a, b), (b, a)):
                if p[0] == "p" and p[1][0] in ("h", "file", "al") and \
                        (q[0] == "blob" and q[1][0] == "init" and q[1][1][0] in ("g", "arg")
                         or q[0] == "p" and q[1][0] == "d" and q[1][1][0] == "blob" and
                         q[1][1][1][0] == "init" and q[1][1][1][1][0] in ("g", "arg")
                         or q[0] == "p" and q[1][0] == "arg"):
                    return 0 if pred == "eq" else 1
        if pred in ("eq", "ne") and b[0] == "c" and b[1] == 0 and a[0] == "blob" and \
                a[1] in STREAMS:
            return int(pred == "ne")
        x, y = self.rng(st, a), self.rng(st, b)
        r = self._cmp_iv(pred, x, y, a, b)
        if r is not None:
            return r
        # relational facts
        s = "s" if pred[0] == "s" else "u"
        p = pred if pred in ("eq", "ne") else pred[1:]
        for sg in (("u", "s") if p in ("eq", "ne") else (s,)):
            m = self._relmask(st, a, b, sg)
            want = {"eq": 2, "ne": 5, "lt": 1, "le": 3, "gt": 4, "ge": 6}[p]
            if m & ~want == 0:
                return 1
            if m & want == 0:
                return 0
        if b[0] != "c" and (a[0] == "lin" or b[0] == "lin") and \
                (pred[0] == "u" or pred in ("eq", "ne")):
            r = self._intdiff(st, a, b, x, y)
            if r is not None:
                lo, hi = r
                m = (1 if hi > 0 else 0) | (2 if lo <= 0 <= hi else 0) | (4 if lo < 0 else 0)
                want = {"eq": 2, "ne": 5, "lt": 1, "le": 3, "gt": 4, "ge": 6}[p]
                if m & ~want == 0:
                    return 1
                if m & want == 0:
                    return 0
        if pred == "ule" and a[0] == "lin" and a[2] == 1 and self.relate and \
                b[0] != "c" and self._noWrap(st, a, x):
            # x + 1 <= y is x < y
            r = self.decide(st, T.mkcmp("ult", T.sub(a, C(1, a[1]), a[1]), b))
            if r is not None:
                return r
        if a[0] == "lin" and b[0] == "lin" and self.relate and pred[0] == "u" and \
                self._noWrap(st, a, x) and self._noWrap(st, b, y):
            g = math.gcd(a[2], b[2], *(c for _, c in a[3] + b[3]))
            if g > 1:
                return self.decide(st, T.mkcmp(pred, *(
                    T.mklin(t[1], t[2] // g, {z: c // g for z, c in t[3]}) for t in (a, b))))
        if pred in ("ult", "ule") and a[0] == "lin" and b[0] == "c" and self.relate and \
                b[1] and self._subst(st, a, b[1] - (pred == "ult")):
            return 1
        if pred == "ule" and b[0] != "c" and self.lens and self._inlen < 2 and \
                width(a) == 64 and self._lenle(st, a, b):
            return 1
        if b[0] == "c" and pred[0] == "u" and self.lens:
            # what is known to stay below a
            lo = 0
            for k, m in st.rel.items():
                if k[2] == "u" and k[1] == a and m & ~3 == 0:
                    lo = max(lo, self.rng(st, k[0]).ulo + (m == 1))
                elif k[2] == "u" and k[0] == a and m & ~6 == 0:
                    lo = max(lo, self.rng(st, k[1]).ulo + (m == 4))
            if lo > b[1] or lo == b[1] and pred in ("uge", "ult"):
                return 1 if pred in ("uge", "ugt") else 0
        return None

    def _subst(self, st, X, hi):
        """X <= hi (unsigned, X = x + rest), using what x is known to stay below"""
        w = width(X)
        xs = {x for x, _ in X[3]}
        for t, f in st.facts.items():
            # a sum with a known upper bound which includes X
            if t[0] == "lin" and t[1] == w and xs < {x for x, _ in t[3]}:
                rest = T.sub(t, X, w)
                r = self.rng(st, rest)
                if self.rng(st, X).uhi + r.uhi <= mask(w) and f[1] - r.ulo <= hi:
                    return True
        for x, c in X[3]:
            if c == mask(w):
                # X = rest - x, and something stays below x
                rest = T.add(X, x, w)
                if self.rng(st, rest).ulo < self.rng(st, x).uhi:
                    continue
                for k, m in st.rel.items():
                    if k[2] == "u" and k[1] == x and m & ~3 == 0 and \
                            self.rng(st, T.sub(rest, k[0], w)).uhi - (m == 1) <= hi:
                        return True
                    if k[2] == "u" and k[0] == x and m & ~6 == 0 and \
                            self.rng(st, T.sub(rest, k[1], w)).uhi - (m == 4) <= hi:
                        return True
            if c != 1:
                continue
            for k, m in st.rel.items():
                if k[2] != "u":
                    continue
                if k[0] == x and m & ~3 == 0:
                    y, strict = k[1], m == 1
                elif k[1] == x and m & ~6 == 0:
                    y, strict = k[0], m == 4
                else:
                    continue
                rest = T.sub(X, x, w)
                if self.rng(st, rest).uhi + self.rng(st, y).uhi > mask(w):
                    continue
                if self.rng(st, T.add(rest, y, w)).uhi - strict <= hi:
                    return True
        return False

    def _lenle(self, st, X, Z):
        """X <= Z, where Z is the length of a buffer: from what is known to stay below Z"""
        self._inlen += 1
        try:
            bases = [(k[0], m == 1) for k, m in st.rel.items() if k[1] == Z and
                     k[2] == "u" and m & ~3 == 0]
            bases += [(k[1], m == 4) for k, m in st.rel.items() if k[0] == Z and
                      k[2] == "u" and m & ~6 == 0]
            bases += [(ZERO, False), (Z, False)]
            for V in (X, T.sub(Z, X, 64)):
                if V[0] == "u":
                    continue
                for o, strict in bases:
                    rest = T.sub(V, o, 64)
                    rem = T.sub(Z, o, 64)
                    if rest == ZERO or strict and rest == C(1, 64) or self.decide(st, T.mkcmp("ule", rest, rem)) == 1:
                        return True
                    if o[0] == "s" and o != Z and \
                            self.decide(st, T.mkcmp("ule", V, o)) == 1:
                        return True
                    neg = T.sub(o, V, 64)
                    if self.decide(st, T.mkcmp("ule", neg, o)) == 1:
                        return True
            return False
        finally:
            self._inlen -= 1

    def _sumrange(self, st, w, d):
        """range of the exact integer sum of c*x, using what is known of partial sums"""
        lo = hi = 0
        for sign in (1, -1):
            part = {x: sign * c for x, c in d.items() if sign * c > 0}
            if not part:
                continue
            plo = phi = 0
            for x, c in part.items():
                q = self.rng(st, x)
                plo += c * q.ulo
                phi += c * q.uhi
            if len(part) > 1 and phi <= mask(w):
                t = T.mklin(w, 0, part)
                if t[0] == "lin":
                    q = self.rng(st, t)
                    plo, phi = max(plo, q.ulo), min(phi, q.uhi)
            if sign > 0:
                lo += plo
                hi += phi
            else:
                lo -= phi
                hi -= plo
        return lo, hi

    def _noWrap(self, st, t, r):
        """(k, {x: c}): t as an exact integer expression, or None if it may wrap"""
        w = width(t)
        if t[0] != "lin":
            return 0, {t: 1}
        k = sgn(t[2], w)
        d = {x: sgn(c, w) for x, c in t[3]}
        plo, phi = self._sumrange(st, w, d)
        if plo + k >= 0 and phi + k <= mask(w):
            return k, d
        # the sum without the constant is exact and the constant cannot make it wrap
        if plo >= 0 and phi <= mask(w) and k < 0:
            base = T.mklin(w, 0, {x: c for x, c in t[3]})
            q = self.rng(st, base)
            if q.ulo + k >= 0:
                return k, d
        return None

    def _intdiff(self, st, a, b, ra, rb):
        """range of the integer b - a"""
        w = width(a)
        d = T.sub(b, a, w)
        if d[0] == "c":
            k, m = d[1], mask(w)
            if rb.ulo >= k or ra.uhi + k <= m:
                return k, k
            k = m + 1 - k
            if ra.ulo >= k or rb.uhi + k <= m:
                return -k, -k
        A, B = self._noWrap(st, a, ra), self._noWrap(st, b, rb)
        if A is None or B is None:
            return None
        k = B[0] - A[0]
        d = dict(B[1])
        for x, c in A[1].items():
            d[x] = d.get(x, 0) - c
        lo, hi = self._sumrange(st, width(a), d)
        lo, hi = lo + k, hi + k
        return lo, hi

    def _cmp_iv(self, pred, x, y, a, b):
        if pred in ("eq", "ne"):
            eq = None
            if x.uhi < y.ulo or y.uhi < x.ulo or x.shi < y.slo or y.shi < x.slo:
                eq = 0
            elif x.ulo == x.uhi == y.ulo == y.uhi:
                eq = 1
            elif b[0] == "c" and b[1] in x.ne:
                eq = 0
            if eq is None:
                return None
            return eq if pred == "eq" else 1 - eq
        if pred[0] == "u":
            xl, xh, yl, yh = x.ulo, x.uhi, y.ulo, y.uhi
        else:
            xl, xh, yl, yh = x.slo, x.shi, y.slo, y.shi
        p = pred[1:]
        if p in ("gt", "ge"):
            xl, xh, yl, yh = yl, yh, xl, xh
            p = {"gt": "lt", "ge": "le"}[p]
        if p == "lt":
            if xh < yl:
                return 1
            if xl >= yh:
                return 0
        else:
            if xh <= yl:
                return 1
            if xl > yh:
                return 0
        return None

    def _untrunc(self, st, t, depth):
        """the term whose low part t is, if it is known to fit; zero extension is no change"""
        while True:
            if t[0] == "o" and t[1] == "zext":
                t = t[3][0]
            elif t[0] == "cat" and t[2][-1] == ("c", 0, 8) and t[2][1][0] != "c":
                n = len(t[2])
                while t[2][n - 1] == ("c", 0, 8):
                    n -= 1
                t = ("cat", 8 * n, t[2][:n])
            elif t[0] == "cat" and t[2][0][0] == "by" and all(
                    b[0] == "by" and b[1] == t[2][0][1] and b[2] == i
                    for i, b in enumerate(t[2])) and \
                    self.rng(st, t[2][0][1], depth + 1).uhi <= mask(t[1]):
                t = t[2][0][1]
            else:
                return t

    def _relmask(self, st, a, b, s):
        """possible orderings of a vs b: 1 '<', 2 '=', 4 '>'"""
        m = st.rel.get((a, b, s))
        if m is not None:
            return m
        m = st.rel.get((b, a, s))
        if m is not None:
            return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)
        return 7

    def assume(self, st, c, val):
        """refine; False when infeasible"""
        k = c[0]
        if k == "c":
            return (c[1] & 1) == val
        if k == "u":
            return True
        if k == "o" and c[1] == "not":
            return self.assume(st, c[3][0], 1 - val)
        if k == "o" and c[1] == "and" and val == 1:
            return all(self.assume(st, x, 1) for x in c[3])
        if k == "o" and c[1] == "or" and val == 0:
            return all(self.assume(st, x, 0) for x in c[3])
        if k != "cmp":
            if T.has_top(c):
                return True
            f = st.facts.get(c)
            if f is not None and f[0] == f[1] and f[0] != val:
                return False
            st.facts[c] = (val, val, -val, -val, frozenset())
            return True
        pred, a, b = c[1], c[2], c[3]
        if pred[0] == "f":
            if not T.has_top(a) and not T.has_top(b):
                st.rel[(a, b, pred)] = val
            return True
        if not val:
            pred = T.NEGP[pred]
        if T.has_top(a) or T.has_top(b):
            return True
        s = "s" if pred[0] == "s" else "u"
        p = pred if pred in ("eq", "ne") else pred[1:]
        if b[0] != "c":
            want = {"eq": 2, "ne": 5, "lt": 1, "le": 3, "gt": 4, "ge": 6}[p]
            for sg in (("u", "s") if p in ("eq", "ne") else (s,)):
                m = self._relmask(st, a, b, sg) & want
                if m == 0:
                    return False
                st.rel.pop((b, a, sg), None)
                st.rel[(a, b, sg)] = m
            if pred in ("ule", "ult"):
                self._linle(st, a, b, pred == "ult")
            elif pred in ("uge", "ugt"):
                self._linle(st, b, a, pred == "ugt")
        y = self.rng(st, b)
        x = self.rng(st, a)
        if not self._refine(st, a, pred, y, b):
            return False
        if b[0] != "c":
            if not self._refine(st, b, T.SWAP[pred], x, a):
                return False
        return True

    def _linle(self, st, a, b, strict):
        """a <= b for linear a,b without wrap: bound the combined term"""
        w = width(a)
        if a[0] == "lin" and any(sgn(c, w) < 0 for x, c in a[3]):
            # the difference is what is left
            d = T.sub(b, a, w)
            if d[0] == "lin" and not T.has_top(d):
                hi = max(0, self.rng(st, b).uhi - self.rng(st, a).ulo)
                self._refine(st, d, "ule", Interval(w, hi, hi), C(hi, w))
                if strict:
                    self._refine(st, d, "uge", Interval(w, 1, 1), C(1, w))
        if b[0] != "lin":
            return
        rb = self.rng(st, b)
        # b must be provably free of wrap: its integer evaluation stays in range
        k = sgn(b[2], w)
        lo = k + self._sumrange(st, w, {x: sgn(c, w) for x, c in b[3]})[0]
        if lo < 0 or k < 0:
            return
        d = {}
        ka, da = T.lin_parts(a, w)
        if sgn(ka, w) != 0:
            return
        if any(sgn(cc, w) < 0 for cc in da.values()):
            return
        for x, c in da.items():
            d[x] = d.get(x, 0) + c
        for x, c in b[3]:
            if sgn(c, w) > 0:
                return
            d[x] = d.get(x, 0) - sgn(c, w)
        t = T.mklin(w, 0, d)
        if t[0] == "c" or T.has_top(t):
            return
        self._refine(st, t, "ule", Interval(w, k - (1 if strict else 0),
                                            k - (1 if strict else 0)), C(k, w))

    def _refine(self, st, t, pred, y, b, depth=0):
        if t[0] == "c":
            return True
        w = width(t)
        iv = self.rng(st, t)
        iv = iv.copy()
        if pred in ("eq", "ule", "uge", "ult", "ugt", "ne") and t[0] == "lin" and \
                not self._count(st, t, pred, y):
            return False
        if pred == "eq":
            iv.ulo = max(iv.ulo, y.ulo)
            iv.uhi = min(iv.uhi, y.uhi)
            iv.slo = max(iv.slo, y.slo)
            iv.shi = min(iv.shi, y.shi)
        elif pred == "ne":
            if y.ulo == y.uhi and len(iv.ne) < 40:
                iv.ne = iv.ne | {y.ulo}
        elif pred == "ult":
            iv.uhi = min(iv.uhi, y.uhi - 1)
        elif pred == "ule":
            iv.uhi = min(iv.uhi, y.uhi)
        elif pred == "ugt":
            iv.ulo = max(iv.ulo, y.ulo + 1)
        elif pred == "uge":
            iv.ulo = max(iv.ulo, y.ulo)
        elif pred == "slt":
            iv.shi = min(iv.shi, y.shi - 1)
        elif pred == "sle":
            iv.shi = min(iv.shi, y.shi)
        elif pred == "sgt":
            iv.slo = max(iv.slo, y.slo + 1)
        elif pred == "sge":
            iv.slo = max(iv.slo, y.slo)
        if not iv.norm():
            return False
        if not iv.full():
            st.facts[t] = iv.tup()
        # push through zext / trunc-like structure
        if depth < 4 and t[0] == "cat":
            return self._setlow(st, t, iv)
        if depth < 4 and t[0] == "o" and t[1] == "zext":
            x = t[3][0]
            xw = width(x)
            r = Interval(xw, iv.ulo, min(iv.uhi, mask(xw)), None, None,
                         frozenset(n for n in iv.ne if n <= mask(xw)))
            return self._set(st, x, r)
        if depth < 4 and t[0] == "o" and t[1] == "sext":
            x = t[3][0]
            xw = width(x)
            r = Interval(xw, None, None, iv.slo, iv.shi)
            return self._set(st, x, r)
        if depth < 4 and t[0] == "lin" and len(t[3]) == 1 and sgn(t[3][0][1], w) == 1:
            x = t[3][0][0]
            kk = sgn(t[2], w)
            rx = self.rng(st, x)
            if rx.ulo + kk >= 0 and rx.uhi + kk <= mask(w):
                r = Interval(w, max(0, iv.ulo - kk), min(mask(w), iv.uhi - kk))
                return self._refine_to(st, x, r, depth)
            if iv.ulo - kk >> w == iv.uhi - kk >> w:
                r = Interval(w, iv.ulo - kk & mask(w), iv.uhi - kk & mask(w))
                return self._refine_to(st, x, r, depth)
        if depth < 4 and t[0] == "lin" and len(t[3]) == 1 and sgn(t[3][0][1], w) == -1:
            x = t[3][0][0]
            if self.rng(st, x).uhi <= t[2]:
                # k - x, without wrap
                r = Interval(w, max(0, t[2] - iv.uhi), t[2] - min(t[2], iv.ulo))
                return self._refine_to(st, x, r, depth)
        if depth < 4 and t[0] == "o" and t[1] in ("udiv", "lshr") and t[3][1][0] == "c" and \
                t[3][1][1] and (t[1] == "udiv" or t[3][1][1] < w):
            m = t[3][1][1] if t[1] == "udiv" else 1 << t[3][1][1]
            r = Interval(w, min(mask(w), iv.ulo * m), min(mask(w), iv.uhi * m + m - 1))
            return self._set(st, t[3][0], r)
        return True

    def _count(self, st, t, pred, y):
        """a number of conditions of which all or none hold"""
        w = t[1]
        if y.ulo != y.uhi or t[2] > mask(w) >> 1 or \
                not all(x[0] == "o" and x[1] == "zext" and width(x[3][0]) == 1 and
                        0 < sgn(c, w) < 256 for x, c in t[3]):
            return True
        n = sum(c for _, c in t[3])
        lo, hi = {"eq": (y.ulo, y.ulo), "ule": (0, y.ulo), "ult": (0, y.ulo - 1),
                  "uge": (y.ulo, mask(w)), "ugt": (y.ulo + 1, mask(w))}.get(pred, (0, mask(w)))
        for x, c in t[3]:
            if t[2] + n - c < lo:
                r = self.assume(st, x[3][0], 1)
            elif t[2] + c > hi:
                r = self.assume(st, x[3][0], 0)
            else:
                continue
            if not r:
                return False
        return True

    def _refine_to(self, st, x, r, depth):
        if x[0] == "o" and x[1] in ("udiv", "lshr", "zext"):
            for pred, v in (("uge", r.ulo), ("ule", r.uhi)):
                if not self._refine(st, x, pred, self.rng(st, C(v, width(x))), None,
                                    depth + 1):
                    return False
            return True
        return self._set(st, x, r)

    def _set(self, st, x, r):
        if x[0] == "c":
            return True
        iv = self.rng(st, x).copy()
        iv.ulo = max(iv.ulo, r.ulo)
        iv.uhi = min(iv.uhi, r.uhi)
        iv.slo = max(iv.slo, r.slo)
        iv.shi = min(iv.shi, r.shi)
        iv.ne = iv.ne | r.ne
        if not iv.norm():
            return False
        if not iv.full():
            st.facts[x] = iv.tup()
        return self._setlow(st, x, iv)

    def _setlow(self, st, x, iv):
        """what is known about a value of which x is the low part, or an extension"""
        if x[0] != "cat":
            return True
        y = self._untrunc(st, x, 0)
        if y == x or y[0] == "cat" and y[1] >= x[1]:
            return True
        m = mask(width(y))
        return self._set(st, y, Interval(width(y), min(iv.ulo, m), min(iv.uhi, m)))

    def settle(self, st, t):
        """the sum t with those of its terms replaced which can have one value only"""
        w = t[1]
        k, d = t[2], {}
        for x, c in t[3]:
            v = self.constval(st, x)
            if v is None:
                d[x] = c
            else:
                k += c * v
        return t if len(d) == len(t[3]) else T.mklin(w, k, d)

    def constval(self, st, t):
        """integer if t has one possible value"""
        if t[0] == "c":
            return t[1]
        if t[0] in ("p", "f", "u"):
            return None
        r = self.rng(st, t)
        if r.ulo == r.uhi:
            return r.ulo
        return None

    # -- memory -------------------------------------------------------------------
    def toptr(self, t):
        """view a term as ('p', obj, off)"""
        if t[0] == "p":
            return t
        if t[0] == "lin":
            # unknown pointer plus offset: the base is the unique blob/symbol
            base = [x for x, c in t[3] if c == 1 and x[0] in ("blob", "s")]
            if len(base) == 1:
                off = T.sub(t, base[0], 64)
                return ("p", ("d", base[0]), off)
        if t[0] == "u":
            return ("p", ("wild",), ("u", 64))
        return ("p", ("d", t), ZERO)

    def obj(self, st, o):
        ob = st.mem.get(o)
        if ob is None:
            if o[0] == "g":
                ob = self.global_obj(o)
            else:
                ob = Obj(None, ("init", o))
            st.mem[o] = ob
        return ob

    def global_obj(self, o):
        g = self.gmap.get(o[1])
        if g is None:
            return Obj(None, ("init", o))
        if (g.const or self.initial) and g.init is not None:
            cells = []
            self._flat(g, g.init, 0, g.ty, cells)
            return Obj(g.ty.size, ("zero",), tuple(sorted(cells)))
        if o[1] in self.zero_globals:
            return Obj(g.ty.size, ("zero",))
        return Obj(g.ty.size, ("init", o))

    def _flat(self, g, c, off, ty, cells):
        if c[0] == "str":
            b = c[1]
            if b.strip(b"\0"):
                cells.append((off, len(b), C(int.from_bytes(b, "little"), 8 * len(b))))
        elif c[0] == "c":
            n = (c[2] + 7) // 8
            cells.append((off, n, C(c[1], 8 * n)))
        elif c[0] == "agg":
            t = c[1]
            for i, x in enumerate(c[2]):
                if t.kind == "struct":
                    self._flat(g, x, off + t.fields[i][0], t.fields[i][1], cells)
                else:
                    self._flat(g, x, off + i * t.elem.size, t.elem, cells)
        elif c[0] in ("g", "gep", "f", "null"):
            cells.append((off, 8, self.cval(g.module, c)))

    gmap = {}
    straight = False    # a single path: states are not compared while there are no others
    initial = False     # modules' variables start with their initial values

    def load(self, st, p, n, I=None):
        p = self.toptr(p)
        off = self.constval(st, p[2])
        ob = self.obj(st, p[1])
        for m in self.monitors:
            m.access(self, st, I, p, n, "load")
        if self.blind(p[1], ob.size):
            return ("u", 8 * n)
        if off is None:
            if p[1] == ("wild",):
                return ("u", 8 * n)
            # symbolic offset into a constant/zero object stays unknown
            if T.has_top(p[2]):
                return ("u", 8 * n)
            ver = ("ver", hash(ob) & 0xffffffff)
            t = ("o", "ld", 8 * n, (("p", p[1], p[2]), ("s", ver, 8)))
            if self.secret and ver not in self.taint and self.holds(ob):
                self.taint.add(ver)
            if t not in st.facts and p[1][0] == "g" and n in (1, 2, 4, 8):
                self._table(st, p, n, t)
            return t
        return ob.read(off, n)

    def _table(self, st, p, n, t):
        """range of the elements of a constant table"""
        g = self.gmap.get(p[1][1])
        if g is None or not g.const or g.init is None or not g.ty.size or \
                g.ty.size > 4096:
            return
        if p[2][0] == "lin":
            if p[2][2] % n or any(c % n for _, c in p[2][3]):
                return
        elif n != 1:
            return
        r = self.rng(st, p[2])
        ob = self.global_obj(p[1])
        if st.mem.get(p[1], ob) != ob:
            return
        vals = []
        for k in range(g.ty.size // n):
            if r.ulo <= k * n <= r.uhi:
                v = ob.read(k * n, n)
                if v[0] != "c":
                    return
                vals.append(v[1])
        if not vals or r.uhi > g.ty.size - n:
            return
        sv = [sgn(v, 8 * n) for v in vals]
        iv = Interval(8 * n, min(vals), max(vals), min(sv), max(sv))
        if iv.norm():
            st.facts[t] = iv.tup()

    def store(self, st, p, n, val, I=None, quiet=False):
        p = self.toptr(p)
        if not quiet:
            for m in self.monitors:
                m.access(self, st, I, p, n, "store")
                m.store(self, st, I, p, n, val)
        off = self.constval(st, p[2])
        if p[1] == ("wild",):
            self.wild += 1
            return
        ob = self.obj(st, p[1])
        if self.blind(p[1], ob.size):
            return
        if off is None or off >> 62:
            self.havoc_from(st, p, I, "st", n, val)
            return
        st.mem[p[1]] = self.obj(st, p[1]).write(off, n, val)

    def havoc_obj(self, st, o, I, tag):
        ob = self.obj(st, o)
        b = self.fresh_base(st, I, tag)
        # o itself may have been renamed only if it mentions b: impossible
        st.mem[o] = Obj(ob.size, b)

    # secrets: the predicate (if any) by which memory holding secrets is told apart, and the
    # symbols standing for a mixture of values some of which are secret
    secret = None
    # the dead local variables to keep: keepdead(st, object name, object)
    keepdead = None

    def mixed(self, key, ob, lo=0, hi=None, val=None):
        """key replaces bytes [lo, hi) of ob, or one of them by val: it is secret if they are"""
        if self.secret is None:
            return
        if self.holds(ob, lo, hi) or val is not None and T.secret_in(val, self.secret):
            while key[0] == "stale":
                key = key[1]
            self.taint.add(key)

    def holds(self, ob, lo=0, hi=None):
        """does ob hold secrets within [lo, hi)?"""
        for o, l, v in ob.cells:
            if o + l > lo and (hi is None or o < hi):
                s = T.secret_in(v, self.secret)
                if s:
                    return s
        if ob.base[0] not in ("zero", "undef", "wiped"):
            s = self.secret(ob.base)
            if s:
                # are there gaps at all?
                end = hi if hi is not None else ob.size
                pos = lo
                for o, l, v in sorted(ob.cells, key=lambda c: c[0]):
                    if o > pos:
                        break
                    pos = max(pos, o + l)
                if end is None or pos < end:
                    return s
        return None

    def havoc_from(self, st, p, I, tag, n=None, val=None):
        """n (a number, a term or unknown) bytes at p become unknown: everything between the
        least and the greatest address they can occupy"""
        o = p[1]
        lo = self.rng(st, p[2]).ulo
        ob = self.obj(st, o)
        if n is not None:
            nt = C(n, 64) if isinstance(n, int) else n
            ln = self.rng(st, nt).uhi
            hi = min(self.rng(st, T.add(p[2], nt, 64)).uhi, self.rng(st, p[2]).uhi + ln)
            if ob.size is not None and hi >= ob.size >= lo:
                hi = ob.size
            if lo <= hi <= lo + (1 << 16) and ln <= 1 << 16:
                if hi > lo:
                    b = self.fresh_blob(st, I, tag, hi - lo)
                    self.mixed(b[1], self.obj(st, o), lo, hi, val)
                    st.mem[o] = self.obj(st, o).write(lo, hi - lo, b)
                return
        keep = []
        if 0 < lo <= 1 << 20:
            pos = 0
            for l, v in ob.pieces(0, lo):
                keep.append((pos, l, v))
                pos += l
        b = self.fresh_base(st, I, tag)
        self.mixed(b, self.obj(st, o), lo, None, val)
        st.mem[o] = Obj(ob.size, b, tuple(keep))

    # ghost variables: live in a memory object of their own so that loop joins treat them
    # like program variables (and keep equalities with them)
    GHOST = ("env", "ghost")

    def gget(self, st, i):
        ob = st.mem.get(self.GHOST)
        if ob is None:
            return None
        for off, n, v in ob.cells:
            if off == 8 * i:
                return v
        return None

    def gset(self, st, i, v):
        ob = st.mem.get(self.GHOST) or Obj(None, ("undef",))
        if v is None:
            ob = Obj(None, ("undef",), tuple(c for c in ob.cells if c[0] != 8 * i))
        else:
            c = self.constval(st, v)
            ob = ob.write(8 * i, 8, v if c is None else C(c, 64))
        st.mem[self.GHOST] = ob

    def havoc_range(self, st, p, n, I, tag):
        """n bytes at p become an opaque string named by (I, tag); n may be None"""
        p = self.toptr(p)
        if p[1] == ("wild",):
            self.wild += 1
            return None
        off = self.constval(st, p[2])
        if off is None or not isinstance(n, int):
            self.havoc_from(st, p, I, tag, n)
            return None
        b = self.fresh_blob(st, I, tag, n)
        if n:
            st.mem[p[1]] = self.obj(st, p[1]).write(off, n, b)
        return b

    def content(self, st, p, n):
        """content of n bytes at p, as a hashable description"""
        p = self.toptr(p)
        off = self.constval(st, p[2])
        if off is None or n is None or p[1] == ("wild",):
            return None
        return self.obj(st, p[1]).content(off, n)

    # -- values -------------------------------------------------------------------
    def cval(self, module, v):
        k = v[0]
        if k == "c":
            return C(v[1], v[2])
        if k == "null":
            return ZERO
        if k == "g":
            g = self.prog.resolve_global(module, v[1])
            key = g.key if g else v[1]
            if g is not None:
                self.gmap[key] = g
            return ("p", ("g", key), ZERO)
        if k == "f":
            f = self.prog.resolve(module, v[1])
            return ("f", (f.key if f else v[1]))
        if k == "undef":
            return ("u", v[1])
        if k == "fp":
            return ("fp", v[1], v[2])
        if k == "zero":
            return C(0, 8 * v[1])
        if k == "gep":
            b = self.cval(module, v[1])
            r = T.add(b, C(v[2][0], 64), 64)
            return r
        if k == "ce":
            op, ty, ops = v[1], v[2], v[3]
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                return self.cval(module, ops[0])
        if k == "agg":
            n = v[1].size
            bs = 0
            for i, x in enumerate(v[2]):
                if x[0] != "c":
                    return ("u", 8 * n)
                bs |= x[1] << (i * v[1].elem.size * 8)
            return C(bs, 8 * n)
        if k == "str":
            return C(int.from_bytes(v[1], "little"), 8 * len(v[1]))
        return ("u", 64)

    def val(self, st, fr, v):
        k = v[0]
        if k == "c":
            return ("c", v[1], v[2])
        if k in ("i", "a"):
            return fr.env.get(v, ("u", 64))
        return self.cval(fr.func.module, v)

    # -- running ------------------------------------------------------------------
    def run(self, func, args=None, setup=None):
        self.seen = {}
        self.J = {}
        self.jcount = {}
        st = State()
        fr = Frame(func, self.ctx(None, None, func), None)
        st.frames.append(fr)
        for i, (nm, ty) in enumerate(func.params):
            if args is not None and i < len(args) and args[i] is not None:
                fr.env[("a", i)] = args[i]
            elif ty.kind == "ptr":
                fr.env[("a", i)] = ("p", ("arg", i), ZERO)
            else:
                fr.env[("a", i)] = ("s", ("arg", i), ty.bits or 64)
        self.entry = func
        self.argroots = {("arg", i) for i in range(len(func.params))}
        for m in self.monitors:
            m.start(self, st)
        if setup:
            setup(self, st)
        self.funcs_seen.add(func.key)
        work = self.work = Work()
        work.append(st)
        while work:
            st = work.pop()
            # a state derived from a loop iterate that has since been widened is covered
            # by what the wider iterate produces
            if st.vers and any(self.J[jk][1] > v for jk, v in st.vers.items()):
                self.superseded += 1
                continue
            self.exec(st, work)
            if self.steps > self.max_steps:
                raise AnalysisBroken("step budget exceeded in %s (%d states)" %
                                     (func.name, len(self.seen)))
        return self

    def fork_nd(self, st):
        if st.loops:
            for k, v in st.loops.items():
                if not v[1]:
                    st.loops[k] = (v[0], True, v[2])

    def exec(self, st, work):
        """run one state until it forks, merges or ends"""
        while True:
            fr = st.frames[-1]
            blk = fr.func.blocks[fr.block]
            I = blk.insts[fr.idx]
            self.steps += 1
            if self.steps > self.max_steps:
                return
            op = I.op
            h = self.DISPATCH.get(op)
            if h is not None:
                fr.env[("i", I.id)] = h(self, st, fr, I)
                fr.idx += 1
                continue
            if op == "store":
                v = self.val(st, fr, I.ops[0])
                p = self.val(st, fr, I.ops[1])
                n = width(v) // 8 if width(v) >= 8 else 1
                if width(v) < 8:
                    v = T.zext(v, 8)
                self.store(st, p, n, v, I)
                fr.idx += 1
                continue
            if op == "br":
                if not I.ops:
                    if not self.jump(st, I, I.succs[0]):
                        return
                    continue
                c = self.val(st, fr, I.ops[0])
                d = self.decide(st, c)
                if d is not None:
                    if c[0] != "c":
                        for m in self.monitors:
                            m.took(self, st, I, c, d)
                    if not self.jump(st, I, I.succs[0 if d else 1]):
                        return
                    continue
                self.branches += 1
                for m in self.monitors:
                    m.branch(self, st, I, c)
                self.fork_nd(st)
                s2 = st.copy()
                a = self.assume(st, c, 1)
                b = self.assume(s2, c, 0)
                if b:
                    for m in self.monitors:
                        m.took(self, s2, I, c, 0)
                    s2.note("%s:%s false" % (I.loc, I.col))
                    if self.jump(s2, I, I.succs[1]):
                        work.append(s2)
                if a:
                    for m in self.monitors:
                        m.took(self, st, I, c, 1)
                    st.note("%s:%s true" % (I.loc, I.col))
                    if self.jump(st, I, I.succs[0]):
                        continue
                return
            if op == "switch":
                c = self.val(st, fr, I.ops[0])
                w = width(c)
                default = True
                first = True
                cur = st
                alts = []
                for v, d in I.cases:
                    t = T.mkcmp("eq", c, C(v, w))
                    r = self.decide(cur, t)
                    if r == 0:
                        continue
                    if r == 1:
                        alts.append((cur, d, v))
                        default = False
                        break
                    s2 = cur.copy()
                    if self.assume(s2, t, 1):
                        alts.append((s2, d, v))
                    if not self.assume(cur, t, 0):
                        default = False
                        break
                if default:
                    alts.append((cur, I.succs[0], None))
                if len(alts) > 1:
                    self.branches += 1
                for s2, d, v in alts:
                    if len(alts) > 1:
                        self.fork_nd(s2)
                        s2.note("%s switch=%s" % (I.loc, v))
                    if self.jump(s2, I, d):
                        work.append(s2)
                return
            if op == "indirectbr":
                for d in I.succs:
                    s2 = st.copy()
                    self.fork_nd(s2)
                    if self.jump(s2, I, d):
                        work.append(s2)
                return
            if op == "ret":
                v = self.val(st, fr, I.ops[0]) if I.ops else None
                if not self.do_ret(st, v, I):
                    return
                continue
            if op == "unreachable":
                return
            if op == "call":
                if not self.do_call(st, fr, I, work):
                    return
                continue
            raise AnalysisBroken("unhandled instruction %s at %s" % (op, I.loc))

    # -- control ------------------------------------------------------------------
    def jump(self, st, I, dest):
        """move to block dest; False when the state is absorbed"""
        fr = st.frames[-1]
        f = fr.func
        src = fr.block
        blk = f.blocks[dest]
        self.edges.add((f.key, src, dest))
        # parallel phi evaluation
        newv = []
        n = 0
        for x in blk.insts:
            if x.op != "phi":
                break
            for v, p in x.incoming:
                if p == src:
                    newv.append((("i", x.id), self.val(st, fr, v)))
                    break
            n += 1
        for k, v in newv:
            fr.env[k] = v
        fr.prev = src
        fr.block = dest
        fr.idx = n
        # leave loops
        left = False
        if st.loops:
            for lk in list(st.loops):
                if lk[0] == fr.ctx and dest not in f.loopbody[lk[1]]:
                    if st.loops[lk][1]:
                        left = True
                    del st.loops[lk]
        if dest in f.headers:
            lk = (fr.ctx, dest)
            back = src in f.loopbody[dest]
            info = st.loops.get(lk)
            if not back or info is None:
                if self.straight and not self.work:
                    st.loops[lk] = (0, False, None)
                    return True
                key = self.normalize(st)
                if key in self.seen:
                    return False
                self.seen[key] = 1
                st.loops[lk] = (0, False, hash(key))
                return self.go(st, left)
            it, nd, ek = info
            if not nd and it < self.concrete:
                st.loops[lk] = (it + 1, nd, ek)
                return True
            if it < self.unroll:
                st.loops[lk] = (it + 1, nd, ek)
                key = self.normalize(st)
                if key in self.seen:
                    return False
                self.seen[key] = 1
                return True
            return self.widen(st, lk, ek, 3)
        if len(blk.preds) > 1:
            if self.straight and not self.work:
                return True
            key = self.normalize(st)
            if key in self.seen:
                return False
            self.seen[key] = 1
            loc = (key[0], hash(key[3]), hash(key[4]))
            cnt = self.jcount.get(loc, 0) + 1
            self.jcount[loc] = cnt
            if cnt > self.maxstates:
                lk = (fr.ctx, dest)
                return self.widen(st, lk, "join", 3)
        return self.go(st, left)

    def go(self, st, left):
        """keep running this state, unless it just left a loop that has others inside"""
        if left and len(self.work):
            self.work.append(st)
            return False
        return True


    def live_after(self, call):
        """values of the calling frame live after call instruction"""
        r = self.postlive.get(call)
        if r is None:
            b = call.block
            live = set()
            for s in b.succs:
                sb = b.func.blocks[s]
                live |= sb.live_in
                for i in sb.insts:
                    if i.op != "phi":
                        break
                    for v, p in i.incoming:
                        if p == b.idx and v[0] in ("i", "a"):
                            live.add(v)
            pos = b.insts.index(call)
            for i in b.insts[pos + 1:]:
                for v in i.ops:
                    if v[0] in ("i", "a"):
                        live.add(v)
                if i.op == "gep":
                    live |= {v for v, _ in i.aux[1] if v[0] in ("i", "a")}
                if i.op == "call" and i.callee and i.callee[0] in ("i", "a"):
                    live.add(i.callee)
            r = frozenset(live)
            self.postlive[call] = r
        return r

    def normalize(self, st):
        """garbage-collect and build the canonical key"""
        roots = set()
        envs = []
        locs = []
        nf = len(st.frames)
        for i, fr in enumerate(st.frames):
            if i == nf - 1:
                blk = fr.func.blocks[fr.block]
                live = blk.live_in
                env = {}
                for k, v in fr.env.items():
                    if k in live:
                        env[k] = v
                for x in blk.insts:
                    if x.op != "phi":
                        break
                    k = ("i", x.id)
                    if k in fr.env:
                        env[k] = fr.env[k]
            else:
                live = self.live_after(fr.func.blocks[fr.block].insts[fr.idx])
                env = {k: v for k, v in fr.env.items() if k in live}
            fr.env = env
            for v in env.values():
                roots |= T.atoms(v)
            envs.append(frozenset(env.items()))
            locs.append((fr.ctx, fr.block, fr.idx if i < nf - 1 else 0))
        roots |= self.argroots
        for v in st.mon.values():
            roots |= _atoms_any(v)
        for k, v in st.x.items():
            roots |= _atoms_any(v)
        # memory reachability
        keep = {}
        frontier = True
        pend = dict(st.mem)
        while frontier:
            frontier = False
            for o in list(pend):
                if o in roots or o[0] in ("g", "arg") or \
                        (o[0] == "d" and T._key_atoms(o) <= roots) or o[0] == "env" or \
                        self.keepdead and o[0] == "al" and self.keepdead(st, o, pend[o]):
                    ob = pend.pop(o)
                    keep[o] = ob
                    frontier = True
                    roots.add(o)
                    if ob.base[0] not in ("zero", "undef"):
                        roots.add(ob.base)
                    for _, _, v in ob.cells:
                        roots |= T.atoms(v)
        st.mem = keep
        ok = lambda t: T.atoms(t) <= roots
        st.facts = {t: v for t, v in st.facts.items() if ok(t)}
        st.rel = {k: v for k, v in st.rel.items() if ok(k[0]) and ok(k[1])}
        if self.coarse:
            # forget comparisons of floating-point quantities
            st.rel = {k: v for k, v in st.rel.items()
                      if not (isinstance(k[2], str) and k[2][0] == "f")}
            st.facts = {t: v for t, v in st.facts.items()
                        if not (t[0] == "cmp" and t[1][0] == "f")}
        st.alive = {a for a in st.alive if a in roots}
        return (tuple(locs), tuple(envs), frozenset(keep.items()),
                frozenset(st.mon.items()), frozenset(st.x.items()),
                frozenset(st.facts.items()), frozenset(st.rel.items()))

    def thresholds(self, f):
        r = self.thr.get(f.key)
        if r is None:
            s = {0, 1}
            for i in f.insts:
                for v in i.ops:
                    if v[0] == "c" and v[2] <= 64:
                        x = sgn(v[1], v[2])
                        s |= {x, x - 1, x + 1}
            r = sorted(s)
            self.thr[f.key] = r
        return r

    def widen(self, st, lk, ek, patience):
        fr = st.frames[-1]
        # retire this header's join symbols in the incoming state
        tag = ("j",) + lk
        olds = [k for k in st.alive
                if isinstance(k, tuple) and len(k) == 3 and k[0] == "jn" and k[1] == tag]
        if olds:
            self.age(st, olds)
        key = self.normalize(st)
        jk = (key[0], ek, hash(key[3]), hash(key[4]))
        ent = self.J.get(jk)
        if ent is None:
            self.J[jk] = (st.copy(), 1)
            st.vers[jk] = 1
            self._mark_loop(st, lk, ek)
            return True
        acc, cnt = ent
        new, changed = self.join(acc, st, tag, fr.func, cnt, patience)
        if not changed:
            return False
        self.J[jk] = (new.copy(), cnt + 1)
        if cnt > 60:
            raise AnalysisBroken("no convergence at %s block %d" % (fr.func.name, lk[1]))
        st.frames = new.frames
        st.mem = new.mem
        st.facts = new.facts
        st.rel = new.rel
        st.x = new.x
        st.mon = new.mon
        st.alive = new.alive
        st.vers[jk] = cnt + 1
        self._mark_loop(st, lk, ek)
        return True

    def _mark_loop(self, st, lk, ek):
        if ek != "join":
            st.loops[lk] = (0, True, ek)

    def join(self, a, b, tag, func, cnt, patience):
        """join state b into a (same locations, same monitor state)"""
        n = a.copy()
        n.loops = dict(b.loops)
        n.trace = b.trace
        newfacts = {}
        newrel = {}
        pairs = {}
        used = set()
        changed = [False]
        thr = self.thresholds(func)

        def isfix(d):
            return d[0] == "c" or self.lens and d[0] != "u" and \
                all(k[0] == "arg" for k in T.atoms(d))

        def jorder(x):
            # counters first, so that other slots are expressed by them
            return 0 if x[0] == "c" else 1 if x[0] == "s" else 2

        def hull(t, x, y, w):
            """facts for joined symbol t from ranges x (acc) and y (new)"""
            ulo, uhi = min(x.ulo, y.ulo), max(x.uhi, y.uhi)
            slo, shi = min(x.slo, y.slo), max(x.shi, y.shi)
            if cnt > patience:
                if ulo < x.ulo:
                    ulo = max([v for v in thr if v <= ulo and v >= 0] or [0])
                if uhi > x.uhi:
                    uhi = min([v for v in thr if v >= uhi] or [mask(w)])
                if slo < x.slo:
                    slo = max([v for v in thr if v <= slo] or [-(1 << (w - 1))])
                if shi > x.shi:
                    shi = min([v for v in thr if v >= shi] or [(1 << (w - 1)) - 1])
            if cnt > patience + 30:
                if ulo < x.ulo:
                    ulo = 0
                if uhi > x.uhi:
                    uhi = mask(w)
                if slo < x.slo:
                    slo = -(1 << (w - 1))
                if shi > x.shi:
                    shi = (1 << (w - 1)) - 1
            ne = frozenset(v for v in x.ne | y.ne
                           if (v in x.ne or v < x.ulo or v > x.uhi) and
                           (v in y.ne or v < y.ulo or v > y.uhi))
            iv = Interval(w, ulo, uhi, slo, shi, ne)
            if not iv.norm():
                iv = Interval(w)
            return iv

        def uppers(st, x):
            r = {x} if x[0] != "c" else set()
            for k, m in st.rel.items():
                if k[2] == "u" and k[0] == x and m & ~3 == 0:
                    r.add(k[1])
                elif k[2] == "u" and k[1] == x and m & ~6 == 0:
                    r.add(k[0])
            return r

        def jval(slot, x, y):
            if self.secret and slot[0] == "m" and x != y and \
                    (T.secret_in(x, self.secret) or T.secret_in(y, self.secret)):
                # the cell keeps a name of its own which is known to be secret
                w = width(x)
                key = ("jn", tag, ("sec",) + slot)
                used.add(key)
                n.alive.add(key)
                self.taint.add(key)
                s = ("blob", key, 0, w // 8) if w > 64 or x[0] == "blob" else ("s", key, w)
                if x != s:
                    changed[0] = True
                return s
            if x == y and not T.has_top(x):
                return x
            if y[0] == "lin" and self.lens:
                y = self.settle(b, y)
            if width(x) != width(y):
                if x != ("u", 64):
                    changed[0] = True
                return ("u", 64)
            w = width(x)
            if x[0] == "u":
                return x
            if y[0] == "u":
                changed[0] = True
                return ("u", w)
            if x[0] == "p" and y[0] == "p" and x[1] == y[1]:
                return ("p", x[1], jval(("off", slot), x[2], y[2]))
            # slots holding the same pair of values keep one symbol (equalities
            # between variables survive the join)
            pk = (x, y)
            if pk in pairs:
                s = pairs[pk]
                if x != s:
                    changed[0] = True
                return s
            # constant sum or difference with an already joined slot
            if w == 64 and x[0] not in ("p", "f", "fp") and y[0] not in ("p", "f", "fp"):
                s = weak = None
                for (x1, y1), s1 in pairs.items():
                    if width(s1) != w or x1[0] in ("p", "f", "fp") or \
                            y1[0] in ("p", "f", "fp") or s1[0] == "blob":
                        continue
                    d1, d2 = T.sub(x, x1, 64), T.sub(y, y1, 64)
                    if d1 == d2:
                        if isfix(d1):
                            s = T.add(s1, d1, 64)
                            break
                        if weak is None and self.relate and not T.has_top(d1) and \
                                self.rng(a, d1).uhi < 1 << 32:
                            weak = T.add(s1, d1, 64)
                    d1, d2 = T.add(x, x1, 64), T.add(y, y1, 64)
                    if d1 == d2 and isfix(d1):
                        s = T.sub(d1, s1, 64)
                        break
                s = s or weak
                if s is not None:
                    pairs[pk] = s
                    if x != s:
                        changed[0] = True
                    return s
            if x[0] == "s" and x[1][0] == "jn" and x[1][1] == tag and x[1] not in used:
                key = x[1]
            elif x[0] == "blob" and x[1][0] == "jn" and x[1][1] == tag and x[2] == 0 and \
                    x[1] not in used:
                key = x[1]
            else:
                key = ("jn", tag, slot)
                while key in used:
                    key = ("jn", tag, (key[2], "+"))
            used.add(key)
            if w > 64 or x[0] in ("blob",) and w > 64:
                s = ("blob", key, 0, w // 8)
                if x != s:
                    changed[0] = True
                n.alive.add(key)
                pairs[pk] = s
                return s
            s = ("s", key, w)
            pairs[pk] = s
            if w in (1, 8, 16, 32, 64):
                if x[0] in ("p", "f") or y[0] in ("p", "f"):
                    rx = self._prange(a, x)
                    ry = self._prange(b, y)
                elif x[0] == "fp" or y[0] == "fp":
                    rx = ry = Interval(w)
                else:
                    rx, ry = self.rng(a, x), self.rng(b, y)
                iv = hull(s, rx, ry, w)
                if not iv.full():
                    newfacts[s] = iv.tup()
                if x != s:
                    changed[0] = True
                elif a.facts.get(s) != (iv.tup() if not iv.full() else None):
                    changed[0] = True
                if w == 64 and x[0] not in ("p", "f", "fp") and y[0] not in ("p", "f", "fp"):
                    for z in self.lens:
                        if self.decide(a, T.mkcmp("ule", x, z)) == 1 and \
                                self.decide(b, T.mkcmp("ule", y, z)) == 1:
                            newrel[(s, z, "u")] = 3
                    if self.lens:
                        # two slots of which one stays below the other
                        for (x1, y1), s1 in list(pairs.items()):
                            if s1[0] != "s" or s1 == s or width(s1) != 64 or \
                                    x1[0] in ("p", "f", "fp") or y1[0] in ("p", "f", "fp"):
                                continue
                            for p, q, p1, q1, k in ((x, y, x1, y1, (s, s1, "u")),
                                                    (x1, y1, x, y, (s1, s, "u"))):
                                if k not in newrel and (k[1], k[0], "u") not in newrel and \
                                        self.decide(a, T.mkcmp("ule", p, p1)) == 1 and \
                                        self.decide(b, T.mkcmp("ule", q, q1)) == 1:
                                    newrel[k] = 3
                    if self.lens and x != s:
                        # a minimum stays below what it is the minimum of
                        for z in uppers(a, x) & uppers(b, y):
                            if z != s and not T.has_top(z):
                                newrel[(s, z, "u")] = 3
                    elif self.lens:
                        for k, v in a.rel.items():
                            if k[0] == s and k[2] == "u" and v & ~3 == 0 and \
                                    self.decide(b, T.mkcmp("ule", y, k[1])) == 1:
                                newrel[k] = 3
            else:
                if x != s:
                    changed[0] = True
            n.alive.add(key)
            return s

        for i, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            env = {}
            for k, x in sorted(fa.env.items(), key=lambda kx: jorder(kx[1])):
                y = fb.env.get(k)
                if y is None:
                    changed[0] = True
                    continue
                env[k] = jval(("e", i, k), x, y)
            n.frames[i].env = env
            n.frames[i].prev = fb.prev
        mem = {}
        for o in a.mem:
            if o not in b.mem:
                changed[0] = True
                continue
            x, y = a.mem[o], b.mem[o]
            if x == y:
                mem[o] = x
                continue
            base = x.base
            if x.base != y.base:
                base = ("jn", tag, ("base", o))
                if self.secret and any(q[0] not in ("zero", "undef", "wiped") and
                                       self.secret(q) for q in (x.base, y.base)):
                    self.taint.add(base)
                n.alive.add(base)
                if x.base != base:
                    changed[0] = True
            cuts = sorted({p for ob in (x, y) for (s0, l, v) in ob.cells
                           for p in (s0, s0 + l)})
            cells = []
            for p, q in zip(cuts, cuts[1:]):
                ina = any(s0 < q and p < s0 + l for (s0, l, v) in x.cells)
                inb = any(s0 < q and p < s0 + l for (s0, l, v) in y.cells)
                if not (ina or inb):
                    continue
                if base != x.base or base != y.base or ina or inb:
                    vx, vy = x.read(p, q - p), y.read(p, q - p)
                    cells.append((p, q - p, jval(("m", o, p, q - p), vx, vy)))
            ob = Obj(x.size if x.size == y.size else None, base, tuple(cells))
            if ob != x:
                changed[0] = True
            mem[o] = ob
        n.mem = mem
        # facts: hull of facts known in both; join-symbol facts computed above
        facts = {}
        for t, f in a.facts.items():
            if t in newfacts:
                continue
            if t[0] == "s" and t[1][0] == "jn" and t[1][1] == tag:
                # a join symbol no longer used
                continue
            x = Interval(width(t), *f)
            y = self.rng(b, t)
            iv = hull(t, x, y, width(t))
            if not iv.full():
                facts[t] = iv.tup()
            if facts.get(t) != f:
                changed[0] = True
        facts.update(newfacts)
        n.facts = facts
        if self.lens:
            # a minimum of what is left and what fits: s <= c - s1
            for (x, y), s in list(pairs.items()):
                if s[0] != "s" or width(s) != 64 or s[1][0] != "jn" or x[0] in ("p", "f", "fp") \
                        or y[0] in ("p", "f", "fp"):
                    continue
                for st, z in [(a, z) for z in uppers(a, x)] + [(b, z) for z in uppers(b, y)]:
                    if z[0] == "o" and z[1] == "zext":
                        z = z[3][0]
                    if z[0] != "lin" or len(z[3]) != 1 or z[3][0][1] != mask(z[1]):
                        continue
                    k = self._untrunc(st, z[3][0][0], 0)
                    for (x1, y1), s1 in list(pairs.items()):
                        if s1[0] != "s" or s1 == s or width(s1) not in (32, 64) or \
                                x1[0] in ("p", "f", "fp") or y1[0] in ("p", "f", "fp") or \
                                self._untrunc(st, x1 if st is a else y1, 0) != k or \
                                self.rng(a, x1).uhi > z[2] or self.rng(b, y1).uhi > z[2]:
                            continue

                        def left(t):
                            return T.sub(C(z[2], 64), T.zext(t, 64), 64)
                        q = left(s1)
                        if (s, q, "u") not in newrel and (q, s, "u") not in newrel and all(
                                v == left(t) or self.decide(d, T.mkcmp("ule", v, left(t))) == 1
                                for d, v, t in ((a, x, x1), (b, y, y1))):
                            newrel[(s, q, "u")] = 3
        rel = dict(newrel)
        for k, v in a.rel.items():
            if k in newrel:
                continue
            v2 = b.rel.get(k)
            if v2 is None:
                changed[0] = True
                continue
            if isinstance(k[2], str) and k[2] in ("u", "s"):
                m = v | v2
                if m != 7:
                    rel[k] = m
                if m != v:
                    changed[0] = True
            elif v == v2:
                rel[k] = v
            else:
                changed[0] = True
        n.rel = rel
        n.alive |= b.alive
        if set(k for k in a.alive) != set(k for k in n.alive):
            pass
        return n, changed[0]

    def _prange(self, st, x):
        w = width(x)
        if x[0] == "p" and x[1][0] in T.NONNULL or x[0] == "f":
            return Interval(w, 1)
        if x[0] == "p":
            return Interval(w)
        return self.rng(st, x)

    # -- calls --------------------------------------------------------------------
    def do_ret(self, st, v, I):
        fr = st.frames.pop()
        if not st.frames:
            st.frames.append(fr)
            self.paths_done += 1
            for m in self.monitors:
                m.ret(self, st, v)
            return False
        for lk in list(st.loops):
            if lk[0] == fr.ctx:
                del st.loops[lk]
        # kill the frame's locals
        for m in self.monitors:
            h = getattr(m, "frame_end", None)
            if h:
                h(self, st, fr, I)
        for o in [o for o in st.mem if o[0] == "al" and o[1] == fr.ctx]:
            del st.mem[o]
        for k in [k for k in st.x if len(k) > 1 and isinstance(k[1], tuple) and
                  k[1][:1] == ("p",) and k[1][1][0] == "al" and k[1][1][1] == fr.ctx]:
            del st.x[k]
        up = st.frames[-1]
        call = fr.call
        if call.ty.kind != "void":
            up.env[("i", call.id)] = v if v is not None else ("u", 64)
        for m in self.monitors:
            m.post(self, st, call, cname(fr.func.name), None, v, "inlined")
        up.idx += 1
        return not st.dead

    def do_call(self, st, fr, I, work):
        cal = I.callee
        if cal[0] == "f":
            name = cal[1]
            target = self.prog.resolve(fr.func.module, name)
        elif cal[0] == "asm":
            name = "?asm"
            target = None
        else:
            v = self.val(st, fr, cal)
            if v[0] == "f":
                target = next((g for g in self.prog.allfuncs if g.key == v[1]), None)
                name = target.name if target else v[1]
            else:
                name = "?indirect"
                target = None
        name = cname(name)
        self.retire(st, I.uid)
        args = [self.val(st, fr, o) for o in I.ops]
        self.calls.setdefault(name, set()).add(I.uid)
        for m in self.monitors:
            m.pre(self, st, I, name, args)
        if st.dead:
            return False
        if name in SETJMP:
            st.x[("jmp", self.toptr(args[0]))] = (fr.ctx, fr.block, fr.idx, I.id)
            fr.env[("i", I.id)] = C(0, 32)
            fr.idx += 1
            return True
        if name in LONGJMP:
            j = st.x.get(("jmp", self.toptr(args[0])))
            if j is None or j[0] != fr.ctx:
                raise AnalysisBroken("%s() out of the function at %s" % (name, I.loc))
            fr.block, fr.idx = j[1], j[2] + 1
            fr.env[("i", j[3])] = C(1, 32)
            return True
        model = self.models.get(name)
        if model is None and name.startswith("llvm."):
            model = self.models.get(".".join(name.split(".")[:2]))
        if model is None and target is not None:
            return self.enter(st, fr, I, target, args)
        if model is None:
            if I.noret:
                return False
            model = default_external
            self.unmodelled.setdefault(name, set()).add(I.loc)
        outs = model(self, st, I, args)
        if outs is None:
            return False
        if not isinstance(outs, list):
            outs = [outs]
        multi = len(outs) > 1
        for o in outs:
            s2 = o.st
            self.outcome_tags.setdefault((name, o.tag), 0)
            self.outcome_tags[(name, o.tag)] += 1
            if multi:
                self.fork_nd(s2)
                s2.note("%s %s() -> %s" % (I.loc, name, o.tag))
            f2 = s2.frames[-1]
            if I.ty.kind != "void":
                f2.env[("i", I.id)] = o.ret if o.ret is not None else ("u", I.ty.bits or 64)
            for m in self.monitors:
                m.post(self, s2, I, name, args, o.ret, o.tag)
            f2.idx += 1
        outs = [o for o in outs if not o.st.dead]
        if not outs:
            return False
        if len(outs) == 1 and outs[0].st is st:
            return True
        for o in outs:
            work.append(o.st)
        return False

    def enter(self, st, fr, I, target, args):
        if len(st.frames) > 60:
            raise AnalysisBroken("call depth exceeded at " + I.loc)
        for f in st.frames:
            if f.func is target and target.key not in getattr(self, "rec_ok", ()):
                raise AnalysisBroken("recursion through %s" % target.name)
        self.funcs_seen.add(target.key)
        self.inlined.setdefault(cname(target.name), set()).add(I.uid)
        nf = Frame(target, self.ctx(fr.ctx, I, target), I)
        for i in range(len(target.params)):
            a = args[i] if i < len(args) else ("u", 64)
            bv = I.byval.get(i) if I.byval else None
            if bv is not None and i in target.byval:
                o = ("al", nf.ctx, ("byval", i))
                st.mem.pop(o, None)
                st.mem[o] = Obj(bv.size, ("undef",))
                self.memcpy(st, ("p", o, ZERO), a, bv.size, I)
                a = ("p", o, ZERO)
            nf.env[("a", i)] = a
        st.frames.append(nf)
        return True

    def mixin(self, st, d):
        """what was just written at d is secret"""
        lo = self.rng(st, d[2]).ulo
        ob = self.obj(st, d[1])
        for o, l, v in ob.cells:
            if o == lo and v[0] == "blob":
                self.taint.add(v[1])
                return
        if ob.base[0] == "hv":
            self.taint.add(ob.base)

    def memcpy(self, st, d, s, n, I):
        """n: int or term"""
        d, s = self.toptr(d), self.toptr(s)
        nt = n
        if not isinstance(n, int):
            n = ("len", nt)
        do = self.constval(st, d[2])
        so = self.constval(st, s[2])
        for m in self.monitors:
            m.access(self, st, I, s, n, "load")
            m.access(self, st, I, d, n, "store")
        if d[1] == ("wild",):
            self.wild += 1
            return
        if not isinstance(n, int) or do is None:
            src = None
            if self.secret and s[1] != ("wild",):
                so = so or 0
                src = self.holds(self.obj(st, s[1]), so, so + n if isinstance(n, int) else None)
            self.havoc_from(st, d, I, "cpy", nt)
            if src:
                self.mixin(st, d)
            return
        if so is None or s[1] == ("wild",):
            b = self.havoc_range(st, d, n, I, "cpy")
            if self.secret and s[1] != ("wild",) and self.holds(self.obj(st, s[1])):
                self.taint.add(b[1])
            return
        src = self.obj(st, s[1])
        ob = self.obj(st, d[1])
        pos = do
        for l, v in src.pieces(so, n):
            ob = ob.write(pos, l, v)
            pos += l
        st.mem[d[1]] = ob

    # -- instruction semantics ------------------------------------------------------
    def i_alloca(self, st, fr, I):
        o = ("al", fr.ctx, I.id)
        sz = I.aux.size
        cnt = self.constval(st, self.val(st, fr, I.ops[0]))
        if o in st.mem:
            # loop-allocated (VLA): retire
            self.claim(st, o)
        st.mem[o] = Obj(sz * cnt if cnt is not None else None, ("undef",))
        st.alive.add(o)
        return ("p", o, ZERO)

    def i_load(self, st, fr, I):
        p = self.val(st, fr, I.ops[0])
        if I.volatile and not (p[0] == "p" and p[1][0] == "al"):
            h = self.models.get("volatile_load")
            if h:
                r = h(self, st, I, p)
                if r is not None:
                    return r
            return self.fresh(st, I, "vol", I.ty.bits)
        n = I.ty.size
        v = self.load(st, p, n, I)
        if I.ty.kind == "int" and I.ty.bits < 8 * n:
            v = T.trunc(v, I.ty.bits)
        if v[0] == "u" and I.ty.bits <= 64:
            # unknown bits: give them an identity for this execution
            r = self.fresh(st, I, "ld", I.ty.bits)
            if self.secret and p[0] == "p" and p[1] != ("wild",) and \
                    self.holds(self.obj(st, p[1]), self.rng(st, p[2]).ulo,
                               self.rng(st, p[2]).uhi + n):
                self.taint.add(r[1])
            return r
        return v

    def i_gep(self, st, fr, I):
        b = self.val(st, fr, I.ops[0])
        off, var = I.aux
        p = self.toptr(b) if b[0] != "c" else b
        if p[0] == "c":
            return T.add(p, C(off, 64), 64)
        r = T.add(p, C(off, 64), 64)
        for v, scale in var:
            x = self.val(st, fr, v)
            if width(x) < 64:
                x = T.sext(x, 64) if self.rng(st, x).slo < 0 else T.zext(x, 64)
            r = T.add(r, T.mul(x, C(scale, 64), 64), 64)
        if r[0] == "p" and r[2][0] != "c":
            c = self.constval(st, r[2])
            if c is not None:
                r = ("p", r[1], C(c, 64))
        if I.sub:
            for m in self.monitors:
                m.index(self, st, I, [(self.val(st, fr, v), n) for v, n in I.sub])
        return r

    def i_bin(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        b = self.val(st, fr, I.ops[1])
        w = I.ty.bits
        if I.ty.kind != "int":
            if I.ty.kind == "vector" and a[0] == "c" and b[0] == "c" and \
                    I.op in ("and", "or", "xor"):
                return T.BIN[I.op](a, b, w)
            return ("u", w)
        ca = self.constval(st, a)
        if ca is not None and a[0] != "c":
            a = C(ca, w)
        cb = self.constval(st, b)
        if cb is not None and b[0] != "c":
            b = C(cb, w)
        f = T.BIN.get(I.op)
        if a[0] == "p" and I.op not in ("add", "sub"):
            if has_const(b) and I.op in ("and", "urem"):
                return ("o", I.op, w, (a, b))
            return ("u", w)
        if b[0] == "p" and I.op not in ("add", "sub"):
            return ("u", w)
        if I.op == "shl" and b[0] == "c":
            return T.shl(a, b, w)
        if f:
            return f(a, b, w)
        return T.generic(I.op, a, b, w)

    def i_fbin(self, st, fr, I):
        a = tuple(self.val(st, fr, o) for o in I.ops)
        w = I.ty.bits
        if any(x[0] == "u" for x in a) or I.ty.kind == "vector":
            return ("u", w)
        if w == 64 and all(x[0] == "fp" and isinstance(x[1], float) for x in a):
            try:
                v = {"fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y,
                     "fmul": lambda x, y: x * y, "fdiv": lambda x, y: x / y,
                     "fneg": lambda x: -x}[I.op](*(x[1] for x in a))
                return ("fp", v, w)
            except (KeyError, ZeroDivisionError, OverflowError):
                pass
        return T.cut(("o", I.op, w, a))

    def i_cast(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        w = I.ty.bits
        op = I.op
        if I.ty.kind == "vector" or I.ty.kind not in ("int", "ptr", "double", "float", "fp80"):
            return ("u", w)
        if a[0] == "u":
            return ("u", w)
        if op == "zext":
            if a[0] == "lin":
                # a sum that does not wrap can be widened term by term
                lo = hi = sgn(a[2], a[1])
                for x, c in a[3]:
                    r = self.rng(st, x)
                    c = sgn(c, a[1])
                    lo += c * (r.ulo if c > 0 else r.uhi)
                    hi += c * (r.uhi if c > 0 else r.ulo)
                if 0 <= lo and hi <= mask(a[1]):
                    t = C(sgn(a[2], a[1]) & mask(w), w)
                    for x, c in a[3]:
                        t = T.add(t, T.mul(T.zext(x, w), C(sgn(c, a[1]) & mask(w), w), w), w)
                    return t
            return T.zext(a, w)
        if op == "sext":
            if width(a) > 1 and self.rng(st, a).slo >= 0:
                return T.zext(a, w)
            return T.sext(a, w)
        if op == "trunc":
            if a[0] == "p":
                return ("u", w)
            return T.trunc(a, w)
        if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            if width(a) == w:
                return a
            return ("u", w)
        if has_const(a) and op in ("uitofp", "sitofp"):
            v = a[1] if op == "uitofp" else sgn(a[1], a[2])
            return ("fp", float(v), w)
        if a[0] == "fp" and op in ("fpext", "fptrunc"):
            return ("fp", a[1], w)
        if a[0] == "fp" and op == "fptoui" and isinstance(a[1], float) and \
                0 <= a[1] <= mask(w):
            return C(int(a[1]), w)
        return T.cut(("o", op, w, (a,)))

    def i_icmp(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        b = self.val(st, fr, I.ops[1])
        if I.ty.kind == "vector" or width(a) != width(b):
            return ("u", I.ty.bits or 1)
        return T.mkcmp(I.pred, a, b)

    def i_fcmp(self, st, fr, I):
        a = self.val(st, fr, I.ops[0])
        b = self.val(st, fr, I.ops[1])
        if a[0] == "u" or b[0] == "u" or I.ty.kind == "vector":
            return ("u", I.ty.bits or 1)
        if a[0] == "fp" and b[0] == "fp" and isinstance(a[1], float) and \
                isinstance(b[1], float):
            nan = a[1] != a[1] or b[1] != b[1]
            if I.pred in ("ord", "uno"):
                return C(int(nan == (I.pred == "uno")), 1)
            if nan and I.pred[0] in "ou":
                return C(int(I.pred[0] == "u"), 1)
            r = {"eq": a[1] == b[1], "ne": a[1] != b[1], "lt": a[1] < b[1],
                 "le": a[1] <= b[1], "gt": a[1] > b[1], "ge": a[1] >= b[1]}.get(I.pred[1:])
            if r is not None:
                return C(1 if r else 0, 1)
        return ("cmp", "f" + I.pred, a, b)

    def i_select(self, st, fr, I):
        c = self.val(st, fr, I.ops[0])
        a = self.val(st, fr, I.ops[1])
        b = self.val(st, fr, I.ops[2])
        if I.ty.kind == "vector":
            return ("u", I.ty.bits)
        d = self.decide(st, c)
        if d is not None:
            return a if d else b
        if a == b:
            return a
        r = self.fresh(st, I, "sel", I.ty.bits)
        x, y = self._prange(st, a), self._prange(st, b)
        iv = Interval(I.ty.bits, min(x.ulo, y.ulo), max(x.uhi, y.uhi), min(x.slo, y.slo),
                      max(x.shi, y.shi))
        if iv.norm() and not iv.full():
            st.facts[r] = iv.tup()
        return r

    def i_phi(self, st, fr, I):
        return fr.env[("i", I.id)]

    def i_opaque(self, st, fr, I):
        if I.ty.kind == "int" and I.ty.bits <= 64:
            return self.fresh(st, I, "op", I.ty.bits)
        return ("u", I.ty.bits or 64)

    def i_extractvalue(self, st, fr, I):
        """of a pair of integers of one size (the result of some builtins)"""
        a = self.val(st, fr, I.ops[0])
        n = I.ty.bits
        if a[0] != "u" and I.ty.kind == "int" and len(I.aux) == 1 and T.width(a) == 2 * n:
            return T.trunc(T.lshr(a, C(n * I.aux[0], 2 * n), 2 * n), n)
        return self.i_opaque(st, fr, I)

    DISPATCH = {
        "alloca": i_alloca, "load": i_load, "gep": i_gep, "icmp": i_icmp, "fcmp": i_fcmp,
        "select": i_select, "phi": i_phi, "extractvalue": i_extractvalue,
        "freeze": lambda s, st, fr, I: s.val(st, fr, I.ops[0]),
    }
    for _o in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr",
               "and", "or", "xor"):
        DISPATCH[_o] = i_bin
    for _o in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
        DISPATCH[_o] = i_fbin
    for _o in ("trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc",
               "fpext", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
        DISPATCH[_o] = i_cast
    for _o in ("va_arg", "extractelement", "insertelement", "shufflevector",
               "insertvalue", "fence", "cmpxchg", "atomicrmw"):
        DISPATCH[_o] = i_opaque


def cname(n):
    """canonical function name: the macro-renamed library symbols lose their prefix"""
    return n[12:] if n.startswith("libcperciva_") else n


def has_const(t):
    return t[0] == "c"


def _atoms_any(v):
    if isinstance(v, tuple):
        r = T.atoms(v) if v and isinstance(v[0], str) else frozenset()
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                r = r | _atoms_any(x)
        return r
    if isinstance(v, frozenset):
        r = frozenset()
        for x in v:
            r = r | _atoms_any(x)
        return r
    return frozenset()


def default_external(E, st, I, args):
    """unknown library function: any result, may write through its pointers"""
    for i, a in enumerate(args):
        if a[0] == "p":
            o = a[1]
            if o[0] == "g":
                g = E.gmap.get(o[1])
                if g is not None and g.const:
                    continue
            E.havoc_obj(st, o, I, ("ext", i))
    if I.ty.kind == "void":
        return Outcome(st)
    return Outcome(st, E.fresh(st, I, "r", I.ty.bits or 64), "any")
