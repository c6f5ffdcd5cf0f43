"""Value numbering of bit strings.

Code whose control flow depends on sizes only is evaluated over a domain in which each bit is
a polynomial over GF(2) in named unknowns and each word also has a normal form as a linear
combination of words modulo 2^w. Equal expressions get equal values whatever the order and
grouping of the operations, so that what the code computes can be compared with a reference
written in the same domain, for all contents of its inputs at once."""
import itertools

import ir
from ir import AnalysisBroken

ZERO1 = 0
ONE1 = 1


class Undecided(AnalysisBroken):
    pass


class Dom:
    """the domain; a value is a tuple of bits, least significant first"""

    def __init__(self):
        self.anf = [frozenset(), frozenset([frozenset()])]
        self.hid = {self.anf[0]: 0, self.anf[1]: 1}
        self.src = {}           # bit -> (name, width, index)
        self.names = {}         # name -> bits
        self.sums = {}          # bits -> (const, {bits: coefficient})
        self.mx = {}
        self.ma = {}
        self.ml = {}
        self.natoms = 0

    # -- bits
    def handle(self, p):
        h = self.hid.get(p)
        if h is None:
            if len(p) > 20000:
                raise Undecided("expression too large")
            h = self.hid[p] = len(self.anf)
            self.anf.append(p)
        return h

    def bx(self, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        if a == b:
            return 0
        k = (a, b) if a < b else (b, a)
        r = self.mx.get(k)
        if r is None:
            r = self.mx[k] = self.handle(self.anf[a] ^ self.anf[b])
        return r

    def ba(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        k = (a, b) if a < b else (b, a)
        r = self.ma.get(k)
        if r is None:
            d = {}
            for x in self.anf[a]:
                for y in self.anf[b]:
                    m = x | y
                    if m in d:
                        del d[m]
                    else:
                        d[m] = 1
            r = self.ma[k] = self.handle(frozenset(d))
        return r

    def bo(self, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        if a == 1 or b == 1:
            return 1
        if a == b:
            return a
        return self.bx(self.bx(a, b), self.ba(a, b))

    # -- values
    def const(self, n, w):
        return tuple([n >> i & 1 for i in range(w)])

    def num(self, v):
        """as a number, or None"""
        r = 0
        for i, b in enumerate(v):
            if b > 1:
                return None
            r |= b << i
        return r

    def named(self, name, w):
        """the value of this name: w unknown bits"""
        r = self.names.get(name)
        if r is None:
            out = []
            for i in range(w):
                h = self.handle(frozenset([frozenset([self.natoms])]))
                self.natoms += 1
                self.src[h] = (name, w, i)
                out.append(h)
            r = self.names[name] = tuple(out)
        return r

    def fn(self, f, args, w):
        """uninterpreted function"""
        return self.named((f,) + tuple(args), w)

    def xor(self, a, b):
        f = self.bx
        return tuple([f(x, y) for x, y in zip(a, b)])

    def and_(self, a, b):
        f = self.ba
        return tuple([f(x, y) for x, y in zip(a, b)])

    def or_(self, a, b):
        f = self.bo
        return tuple([f(x, y) for x, y in zip(a, b)])

    def shl(self, a, n):
        w = len(a)
        return (0,) * min(n, w) + a[:max(w - n, 0)]

    def lshr(self, a, n):
        w = len(a)
        return a[min(n, w):] + (0,) * min(n, w)

    def ashr(self, a, n):
        w = len(a)
        n = min(n, w - 1)
        return a[n:] + (a[-1],) * n

    def rotr(self, a, n):
        n %= len(a)
        return a[n:] + a[:n]

    def lin(self, v):
        """(constant, {word: coefficient}) modulo 2^w"""
        r = self.ml.get(v)
        if r is not None:
            return r
        n = self.num(v)
        if n is not None:
            r = (n, {})
        elif v in self.sums:
            r = self.sums[v]
        else:
            r = (0, {v: 1})
            s = self.src.get(v[0])
            if s is not None and s[2] == 0 and s[1] > len(v) and s[0][0] == "sum" and all(
                    self.src.get(b) == (s[0], s[1], i) for i, b in enumerate(v)):
                # the low end of a longer sum
                c, t = self.sums[self.names[s[0]]]
                r = self.comb([(c, {})] + [self.times(self.lin(x[:len(v)]), k, len(v))
                                           for x, k in t.items()], len(v))
        self.ml[v] = r
        return r

    def times(self, l, k, w):
        m = (1 << w) - 1
        return (l[0] * k & m, {x: c * k & m for x, c in l[1].items() if c * k & m})

    def comb(self, ls, w):
        m = (1 << w) - 1
        c = 0
        t = {}
        for lc, lt in ls:
            c += lc
            for x, k in lt.items():
                n = t.get(x, 0) + k & m
                if n:
                    t[x] = n
                else:
                    t.pop(x, None)
        return (c & m, t)

    def word(self, l, w):
        c, t = l
        if not t:
            return self.const(c, w)
        if len(t) == 1 and c == 0:
            (x, k), = t.items()
            if k & (k - 1) == 0:
                return self.shl(x, k.bit_length() - 1)
        r = self.named(("sum", w, c, frozenset(t.items())), w)
        self.sums[r] = l
        return r

    def add(self, a, b):
        for x, y in zip(a, b):
            if x and y:
                break
        else:
            return tuple([x or y for x, y in zip(a, b)])
        w = len(a)
        return self.word(self.comb([self.lin(a), self.lin(b)], w), w)

    def sub(self, a, b):
        w = len(a)
        return self.word(self.comb([self.lin(a), self.times(self.lin(b), (1 << w) - 1, w)],
                                   w), w)

    def mul(self, a, b):
        w = len(a)
        for x, y in ((a, b), (b, a)):
            n = self.num(x)
            if n is not None:
                return self.word(self.times(self.lin(y), n, w), w)
        return self.fn("mul", sorted((a, b)), w)

    def mux1(self, sel, cand):
        if all(c == cand[0] for c in cand):
            return cand[0]
        return self.fn("mux", (sel, cand), 1)[0]

    def choices(self, v):
        """the values a word can take: its unknown bits, and what it is for each of their
        settings"""
        c, t = self.lin(v)
        w = len(v)
        bits = sorted({b for x in t for b in x if b > 1})
        if len(bits) > 7:
            raise Undecided("address depends on data")
        out = []
        for k in range(1 << len(bits)):
            env = {b: k >> i & 1 for i, b in enumerate(bits)}
            n = c
            for x, m in t.items():
                n += m * sum((b if b < 2 else env[b]) << i for i, b in enumerate(x))
            out.append(n & (1 << w) - 1)
        return tuple(bits), out

    # -- for people
    def show(self, v, depth=2):
        n = self.num(v)
        if n is not None:
            return "%#x" % n
        s = self.src.get(v[0])
        if s is not None and all(self.src.get(b) == (s[0], s[1], s[2] + i)
                                 for i, b in enumerate(v)):
            nm = s[0]
            if nm[0] == "sum":
                if depth == 0:
                    return "(sum)"
                _, w, c, t = nm
                r = "(%s%s)" % (" + ".join(
                    ("%d*" % k if k != 1 else "") + self.show(x, depth - 1)
                    for x, k in list(t)[:4]), (" + %#x" % c if c else "") +
                    (" + ..." if len(t) > 4 else ""))
            elif nm[0] == "in":
                r = "%s[%d]" % (nm[1], nm[2])
            else:
                r = str(nm[0])
            return r if s[2] == 0 and len(v) == s[1] else "%s bit %d" % (r, s[2])
        return "an expression"


class Obj:
    __slots__ = ("name", "size", "mem", "fill", "freed", "residue", "anywhere")

    def __init__(self, name, size, fill):
        self.name = name
        self.size = size
        self.mem = {}
        self.fill = fill        # "undef", "zero", "in"
        self.freed = False
        self.residue = 0
        self.anywhere = False


class Fault(Exception):
    """the code does something undefined"""


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


UNDEF8 = tuple([-1] * 8)        # placeholder, never computed with


class VM:
    """evaluation of functions of a program"""

    def __init__(self, prog, dom, contracts=None, maxsteps=3000000):
        self.P = prog
        self.D = dom
        self.objs = {}
        self.contracts = dict(BUILTIN)
        self.contracts.update(contracts or {})
        self.steps = 0
        self.maxsteps = maxsteps
        self.funcs = set()
        self.nobj = 0
        self.onblock = None
        self.decisions = []
        self.taken = []
        self.forced = {}
        self.residue = 16       # of what malloc() gives, modulo 4096
        self.bytes = 1          # of what nothing is known of
        self.asked = False      # whether the code has looked at an alignment

    # -- memory
    def new(self, name, size, fill="undef", align=None):
        """an object whose address is a multiple of `align`, and of no more than that"""
        self.nobj += 1
        k = (name, self.nobj)
        self.objs[k] = Obj(name, size, fill)
        self.objs[k].residue = (self.bytes if align is None else align) % 4096
        self.objs[k].anywhere = align is None
        return ("p", k, 0)

    def aligned(self, p, n):
        """that p is a multiple of n, which a vector access relies on"""
        if p[0] != "p":
            return
        o = self.objs[p[1]]
        off = p[2]
        if isinstance(off, tuple):
            off = self.D.num(off)
            if off is None:
                return
            off = sg(off)
        if (off + o.residue) % n:
            raise Fault("access that needs an address which is a multiple of %d, to byte %d "
                        "of %s, which need not be at one" % (n, off, o.name))

    def gobj(self, m, name):
        g = self.P.resolve_global(m, name)
        k = ("g", g.name, g.module.path if g.static else "")
        if k not in self.objs:
            o = self.objs[k] = Obj(name, g.ty.size, "zero" if g.init is not None else "in")
            o.residue = (g.align or 1) % 4096
            if g.init is not None:
                self.flat(o, g, g.init, 0, g.ty)
        return ("p", k, 0)

    def flat(self, o, g, c, off, ty):
        D = self.D
        if c[0] == "str":
            for i, b in enumerate(c[1]):
                o.mem[off + i] = D.const(b, 8)
        elif c[0] == "c":
            for i in range((c[2] + 7) // 8):
                o.mem[off + i] = D.const(c[1] >> 8 * i & 255, 8)
        elif c[0] == "agg":
            t = c[1]
            for i, x in enumerate(c[2]):
                if t.kind == "struct":
                    self.flat(o, g, x, off + t.fields[i][0], t.fields[i][1])
                else:
                    self.flat(o, g, x, off + i * t.elem.size, t.elem)
        elif c[0] in ("g", "gep", "f"):
            o.mem[off] = ("ptr", self.cval(g.module, c))
            for i in range(1, 8):
                o.mem[off + i] = ("ptr+",)
        elif c[0] == "fp":
            for i in range(c[2] // 8):
                o.mem[off + i] = UNDEF8

    def at(self, k, off):
        o = self.objs[k]
        b = o.mem.get(off)
        if b is None:
            if o.size is not None and not 0 <= off < o.size:
                raise Fault("access to byte %d of %s, which has %d" % (off, o.name, o.size))
            if o.fill == "zero":
                return (0,) * 8
            if o.fill == "undef":
                return UNDEF8
            return self.D.named(("in", o.name, off), 8)
        return b

    def loadbytes(self, p, n):
        if p[0] != "p":
            raise Fault("access through a pointer that is not to an object")
        k, off = p[1], p[2]
        if self.objs[k].freed:
            raise Fault("access to freed memory")
        if isinstance(off, tuple):
            c = self.D.num(off)
            if c is None:
                sel, offs = self.D.choices(off)
                cands = [self.loadbytes(("p", k, sg(o)), n) for o in offs]
                if any(b[0] in ("ptr", "ptr+", -1) for c in cands for b in c):
                    raise Undecided("data-dependent load of a pointer")
                return [tuple([self.D.mux1(sel, tuple([c[i][j] for c in cands]))
                               for j in range(8)]) for i in range(n)]
            off = sg(c)
        return [self.at(k, off + i) for i in range(n)]

    def storebytes(self, p, bs):
        if p[0] != "p":
            raise Fault("store through a pointer that is not to an object")
        k, off = p[1], p[2]
        o = self.objs[k]
        if o.freed:
            raise Fault("store to freed memory")
        if isinstance(off, tuple):
            c = self.D.num(off)
            if c is None:
                raise Undecided("store at a data-dependent address")
            off = sg(c)
        if o.size is not None and not (0 <= off and off + len(bs) <= o.size) and bs:
            raise Fault("store to bytes %d to %d of %s, which has %d" % (
                off, off + len(bs) - 1, o.name, o.size))
        for i, b in enumerate(bs):
            o.mem[off + i] = b

    def load(self, p, ty):
        n = ty.size if ty.kind != "int" else (ty.bits + 7) // 8
        bs = self.loadbytes(p, n)
        if bs and bs[0][0] == "ptr":
            return bs[0][1]
        out = []
        for b in bs:
            if b[0] == "ptr+":
                raise Undecided("bytes of a pointer")
            out.extend(b)
        if ty.kind == "int":
            out = out[:ty.bits]
        return tuple(out)

    def store(self, p, v, ty):
        if v[0] in ("p", "f"):
            self.storebytes(p, [("ptr", v)] + [("ptr+",)] * 7)
            return
        if v[0] == "agg":
            raise Undecided("aggregate store")
        if len(v) % 8:
            v = v + (0,) * (-len(v) % 8)
        self.storebytes(p, [v[i:i + 8] for i in range(0, len(v), 8)])

    def get(self, p, n):
        """n bytes as one value"""
        out = []
        for b in self.loadbytes(p, n):
            if b[0] in ("ptr", "ptr+"):
                raise Undecided("bytes of a pointer")
            out.extend(b)
        return tuple(out)

    def put(self, p, v):
        self.storebytes(p, [v[i:i + 8] for i in range(0, len(v), 8)])

    # -- constants and pointers
    def cval(self, m, c):
        D = self.D
        k = c[0]
        if k == "c":
            return D.const(c[1], c[2])
        if k == "null":
            return (0,) * 64
        if k == "g":
            return self.gobj(m, c[1])
        if k == "f":
            return ("f", c[1], m)
        if k == "undef":
            return (-1,) * c[1]
        if k == "zero":
            return (0,) * (c[2].bits or 8 * c[1])
        if k == "agg":
            out = []
            for x in c[2]:
                v = self.cval(m, x)
                if v[0] in ("p", "f"):
                    raise Undecided("constant aggregate")
                out.extend(v)
            return tuple(out)
        if k == "gep":
            p = self.cval(m, c[1])
            off, var = c[2]
            if var:
                raise Undecided("constant address")
            return self.padd(p, D.const(off & (1 << 64) - 1, 64))
        if k == "fp":
            return ("fp", c[1])
        if k == "blockaddr":
            return ("f", "a label", m)
        if k == "ce":
            a = [self.cval(m, x) for x in c[3]]
            return self.binop(c[1], a, c[2])
        raise Undecided("constant %s" % k)

    def padd(self, p, off):
        D = self.D
        if p[0] != "p":
            if p[0] in ("f", "fp"):
                raise Undecided("pointer arithmetic")
            return D.add(p, off)
        c = D.num(off)
        if c is not None and isinstance(p[2], int):
            return ("p", p[1], sg(c) + p[2])
        cur = D.const(p[2] & (1 << 64) - 1, 64) if isinstance(p[2], int) else p[2]
        r = D.add(cur, off)
        c = D.num(r)
        return ("p", p[1], sg(c) if c is not None else r)

    # -- evaluation
    def call(self, f, args):
        if isinstance(f, str):
            f = self.P.func(f)
        self.funcs.add(f)
        D = self.D
        env = {}
        for i, a in enumerate(args):
            env[("a", i)] = a
        m = f.module
        blk = f.blocks[0]
        prev = None
        mine = []

        def val(v):
            if v[0] == "i" or v[0] == "a":
                return env[v]
            return self.cval(m, v)
        while True:
            self.steps += len(blk.insts)
            if self.steps > self.maxsteps:
                raise Undecided("%s: too many steps" % f.name)
            if blk.insts[0].op == "phi":
                newv = []
                for x in blk.insts:
                    if x.op != "phi":
                        break
                    for v, pb in x.incoming:
                        if pb == prev:
                            newv.append((("i", x.id), val(v)))
                            break
                env.update(newv)
            if self.onblock:
                self.onblock(f, blk, env)
            for I in blk.insts:
                op = I.op
                if op == "phi":
                    continue
                try:
                    if op == "load":
                        if I.align >= 16:
                            self.aligned(val(I.ops[0]), I.align)
                        env[("i", I.id)] = self.load(val(I.ops[0]), I.ty)
                    elif op == "store":
                        if I.align >= 16:
                            self.aligned(val(I.ops[1]), I.align)
                        self.store(val(I.ops[1]), val(I.ops[0]), None)
                    elif op == "gep":
                        off, var = I.aux
                        t = D.const(off & (1 << 64) - 1, 64)
                        for v, scale in var:
                            x = val(v)
                            if len(x) < 64:
                                x = x + (x[-1],) * (64 - len(x))
                            t = D.add(t, D.mul(x, D.const(scale, 64)))
                        env[("i", I.id)] = self.padd(val(I.ops[0]), t)
                    elif op == "call":
                        r = self.docall(I, f, [val(x) for x in I.ops], val)
                        if r is not None:
                            env[("i", I.id)] = r
                    elif op == "br":
                        if not I.ops:
                            nxt = I.succs[0]
                        else:
                            c = self.truth(val(I.ops[0]))
                            nxt = I.succs[0] if c else I.succs[1]
                    elif op == "switch":
                        x = D.num(val(I.ops[0]))
                        if x is None:
                            raise Undecided("switch on data")
                        nxt = I.succs[0]
                        for c, d in I.cases:
                            if c == x:
                                nxt = d
                    elif op == "indirectbr":
                        if len(I.succs) != 1:
                            raise Undecided("computed goto")
                        nxt = I.succs[0]
                    elif op == "ret":
                        for k in mine:
                            self.objs.pop(k, None)
                        return val(I.ops[0]) if I.ops else None
                    elif op == "alloca":
                        n = D.num(val(I.ops[0]))
                        p = self.new(I.name or "local", I.aux.size * (n or 1), "undef",
                                     I.align or 16)
                        mine.append(p[1])
                        env[("i", I.id)] = p
                    elif op == "unreachable":
                        raise Fault("unreachable code is reached")
                    elif op == "icmp":
                        env[("i", I.id)] = self.icmp(I.pred, val(I.ops[0]), val(I.ops[1]))
                    elif op == "select":
                        c = val(I.ops[0])
                        a, b = val(I.ops[1]), val(I.ops[2])
                        n = D.num(c)
                        if n is not None and len(c) == 1:
                            env[("i", I.id)] = a if n else b
                        elif len(c) == 1 and a[0] not in ("p", "f") and b[0] not in ("p", "f"):
                            env[("i", I.id)] = tuple([
                                D.bx(y, D.ba(c[0], D.bx(x, y))) for x, y in zip(a, b)])
                        else:
                            env[("i", I.id)] = a if self.truth(c) else b
                    elif op == "extractvalue":
                        a = val(I.ops[0])
                        if a[0] != "agg":
                            raise Undecided("extractvalue")
                        env[("i", I.id)] = a[1][I.aux[0]]
                    elif op == "shufflevector":
                        a, b = val(I.ops[0]), val(I.ops[1])
                        n = I.ty.elem.bits
                        x = a + b
                        out = []
                        for k in I.aux:
                            out.extend(x[k * n:k * n + n] if k >= 0 else (-1,) * n)
                        env[("i", I.id)] = tuple(out)
                    elif op == "extractelement":
                        a = val(I.ops[0])
                        k = D.num(val(I.ops[1]))
                        if k is None:
                            raise Undecided("vector index")
                        n = I.ty.bits
                        env[("i", I.id)] = a[k * n:k * n + n]
                    elif op == "insertelement":
                        a, x = val(I.ops[0]), val(I.ops[1])
                        k = D.num(val(I.ops[2]))
                        if k is None:
                            raise Undecided("vector index")
                        n = len(x)
                        env[("i", I.id)] = a[:k * n] + x + a[k * n + n:]
                    else:
                        env[("i", I.id)] = self.binop(op, [val(x) for x in I.ops], I.ty)
                except Fault as e:
                    if not getattr(e, "where", None):
                        e.where = "%s (%s)" % (I.loc, f.name)
                    raise
                except Undecided as e:
                    if not getattr(e, "where", None):
                        e.where = "%s (%s)" % (I.loc, f.name)
                        e.args = ("%s at %s" % (e.args[0], e.where),)
                    raise
            prev = blk.idx
            blk = f.blocks[nxt]

    def truth(self, c):
        n = self.D.num(c)
        if n is not None:
            return n
        if -1 in c:
            raise Fault("a branch depends on uninitialised memory")
        k = c
        if k in self.forced:
            return self.forced[k]
        i = len(self.taken)
        v = self.decisions[i] if i < len(self.decisions) else 1
        self.taken.append((k, v))
        self.forced[k] = v
        return v

    def binop(self, op, a, ty):
        D = self.D
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "addrspacecast"):
            return a[0]
        x = a[0]
        if op in ("trunc", "zext", "sext"):
            if x[0] in ("p", "f", "fp"):
                raise Undecided(op + " of a pointer")
            sw, n = None, ty.bits
            if ty.kind == "vector":
                raise Undecided("vector conversion")
            if op == "trunc":
                return x[:n]
            if op == "zext":
                return x + (0,) * (n - len(x))
            return x + (x[-1],) * (n - len(x))
        y = a[1] if len(a) > 1 else None
        if x[0] == "fp" or y and y[0] == "fp":
            raise Undecided("floating point")
        if x[0] == "p" or y and y[0] == "p":
            if op == "add":
                return self.padd(x, y) if x[0] == "p" else self.padd(y, x)
            if op == "sub" and x[0] == "p":
                if y[0] == "p":
                    if x[1] == y[1] and isinstance(x[2], int) and isinstance(y[2], int):
                        return D.const((x[2] - y[2]) & (1 << 64) - 1, 64)
                    raise Undecided("difference of pointers")
                n = D.num(y)
                if n is not None:
                    return self.padd(x, D.const(-n & (1 << 64) - 1, 64))
            n = D.num(y) if y[0] != "p" else None
            if x[0] == "p" and isinstance(x[2], int) and n is not None:
                # the address of an object is a multiple of 4096, plus its residue
                r = self.objs[x[1]].residue
                self.asked = self.asked or self.objs[x[1]].anywhere
                if op == "and" and sg(n) < 0 and -sg(n) & (-sg(n) - 1) == 0 and \
                        -sg(n) <= 4096:
                    return ("p", x[1], (x[2] + r & sg(n)) - r)
                if op == "and" and n < 4096:
                    return D.const(x[2] + r & n, 64)
                if op == "urem" and n <= 4096 and n & (n - 1) == 0:
                    return D.const((x[2] + r) % n, 64)
            raise Undecided(op + " of a pointer")
        if op in ("xor", "and", "or"):
            if -1 in x or -1 in y:
                # bits that are not set matter only if they are used
                def f(p, q):
                    if op == "and" and (p == 0 or q == 0):
                        return 0
                    if op == "or" and (p == 1 or q == 1):
                        return 1
                    return -1 if p < 0 or q < 0 else \
                        {"xor": D.bx, "and": D.ba, "or": D.bo}[op](p, q)
                return tuple([f(p, q) for p, q in zip(x, y)])
            return (D.xor if op == "xor" else D.and_ if op == "and" else D.or_)(x, y)
        if ty.kind == "vector":
            n = ty.elem.bits
            out = ()
            for i in range(0, len(x), n):
                out += self.scalar(op, x[i:i + n], y[i:i + n])
            return out
        return self.scalar(op, x, y)

    def scalar(self, op, x, y):
        D = self.D
        if -1 in x or -1 in y:
            return (-1,) * len(x)
        if op == "add":
            return D.add(x, y)
        if op == "sub":
            return D.sub(x, y)
        if op == "mul":
            return D.mul(x, y)
        n = D.num(y)
        if op in ("shl", "lshr", "ashr"):
            if n is None:
                raise Undecided("shift by data")
            if n >= len(x):
                raise Fault("shift by %d of %d bits" % (n, len(x)))
            return {"shl": D.shl, "lshr": D.lshr, "ashr": D.ashr}[op](x, n)
        m = D.num(x)
        w = len(x)
        if n == 0:
            raise Fault("division by zero")
        if m is not None and n is not None:
            if op in ("sdiv", "srem"):
                ms, ns = sgn(m, w), sgn(n, w)
                q = abs(ms) // abs(ns) * (1 if (ms < 0) == (ns < 0) else -1)
                return D.const((q if op == "sdiv" else ms - q * ns) & (1 << w) - 1, w)
            return D.const(m // n if op == "udiv" else m % n, w)
        if n is not None and n & (n - 1) == 0:
            k = n.bit_length() - 1
            if op == "udiv":
                return D.lshr(x, k)
            if op == "urem":
                return x[:k] + (0,) * (w - k)
        return D.fn(op, (x, y), w)

    def icmp(self, pred, x, y):
        D = self.D
        if x[0] in ("p", "f") or y[0] in ("p", "f"):
            if pred in ("eq", "ne"):
                if x[0] == y[0] and (x[0] == "f" or x[1] == y[1] and isinstance(x[2], int)
                                     and isinstance(y[2], int)):
                    e = x == y
                elif x[0] not in ("p", "f") and nowhere(D.num(x)) or \
                        y[0] not in ("p", "f") and nowhere(D.num(y)) or x[0] == y[0] == "p":
                    e = False
                else:
                    raise Undecided("comparison of pointers")
                return (int(e == (pred == "eq")),)
            if x[0] == y[0] == "p" and x[1] == y[1] and isinstance(x[2], int) and \
                    isinstance(y[2], int):
                a, b = x[2], y[2]
                return (int({"u" + k: v for k, v in (
                    ("lt", a < b), ("le", a <= b), ("gt", a > b), ("ge", a >= b))}.get(
                        pred, False)),)
            raise Undecided("comparison of pointers")
        if -1 in x or -1 in y:
            return (-1,)
        a, b = D.num(x), D.num(y)
        w = len(x)
        if a is not None and b is not None:
            if pred[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            p = pred[-2:]
            return (int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b,
                         "gt": a > b, "ge": a >= b}[p]),)
        if x == y:
            return (int(pred[-1] == "e" and pred != "ne" or pred == "eq"),)
        # bounds from the known bits
        if pred[0] == "u" or pred in ("eq", "ne"):
            lo = lambda v: sum((q if q == 1 else 0) << i for i, q in enumerate(v))
            hi = lambda v: sum((q if q == 0 else 1) << i for i, q in enumerate(v))
            if pred in ("eq", "ne"):
                if any(p < 2 and q < 2 and p != q for p, q in zip(x, y)):
                    return (int(pred == "ne"),)
                d = {D.bx(p, q) for p, q in zip(x, y)} - {0}
                if len(d) <= 4:
                    e = 1
                    for q in d:
                        e = D.ba(e, D.bx(q, 1))
                    return (e if pred == "eq" else D.bx(e, 1),)
            elif pred in ("ult", "uge"):
                if hi(x) < lo(y):
                    return (int(pred == "ult"),)
                if lo(x) >= hi(y):
                    return (int(pred == "uge"),)
            else:
                if lo(x) > hi(y):
                    return (int(pred == "ugt"),)
                if hi(x) <= lo(y):
                    return (int(pred == "ule"),)
        neg = {"ne": "eq", "uge": "ult", "ugt": "ule", "sge": "slt", "sgt": "sle"}
        if pred in neg:
            return (D.bx(D.fn("cmp", (neg[pred], x, y), 1)[0], 1),)
        return D.fn("cmp", (pred, x, y), 1)

    def docall(self, I, f, args, val):
        c = I.callee
        if c[0] == "asm":
            if "asm" in self.contracts:
                return self.contracts["asm"](self, I, args)
            raise Undecided("assembly")
        if c[0] != "f":
            t = val(c)
            if t[0] != "f":
                raise Undecided("call through an unknown pointer")
            name, m = t[1], t[2]
        else:
            name, m = c[1], f.module
        for i, t in (I.byval or {}).items():
            p = self.new("copy", t.size, "undef", 8)
            self.storebytes(p, self.loadbytes(args[i], t.size))
            args[i] = p
        g = self.P.resolve(m, name)
        short = name.split(".llvm")[0]
        h = self.contracts.get(short)
        if h is None and name.startswith("llvm."):
            parts = name.split(".")
            for k in range(len(parts), 1, -1):
                h = self.contracts.get(".".join(parts[:k]))
                if h:
                    break
        if h is not None:
            return h(self, I, args)
        if g is None or g.decl:
            raise Undecided("call of %s()" % name)
        return self.call(g, args)


def nowhere(n):
    """not an address of an object"""
    return n is not None and (n < 4096 or n >= 1 << 63)


def sg(n):
    return n - (1 << 64) if n >> 63 else n


def sgn(n, w):
    return n - (1 << w) if n >> (w - 1) else n


def paths(make, go, limit=64):
    """run go(vm) for each way that branches on data can go; -> [(vm, result, conditions)]"""
    out = []
    todo = [[]]
    while todo:
        d = todo.pop()
        vm = make()
        vm.decisions = d
        r = go(vm)
        out.append((vm, r, vm.taken))
        for i in range(len(d), len(vm.taken)):
            todo.append([v for _, v in vm.taken[:i]] + [1 - vm.taken[i][1]])
        if len(out) + len(todo) > limit:
            raise Undecided("too many branches on data")
    return out


# -- builtin functions ---------------------------------------------------------------------------

def size(vm, v, what):
    n = vm.D.num(v)
    if n is None:
        raise Undecided("%s of unknown length" % what)
    return n


def b_memcpy(vm, I, a):
    n = size(vm, a[2], "copy")
    if n:
        vm.storebytes(a[0], vm.loadbytes(a[1], n))
    return a[0]


def b_memset(vm, I, a):
    n = size(vm, a[2], "fill")
    if n:
        vm.storebytes(a[0], [a[1][:8]] * n)
    return a[0]


def b_zero(vm, I, a):
    n = size(vm, a[1], "wipe")
    if n:
        vm.storebytes(a[0], [(0,) * 8] * n)


def b_memcmp(vm, I, a):
    n = size(vm, a[2], "comparison")
    x, y = vm.get(a[0], n), vm.get(a[1], n)
    if x == y:
        return (0,) * 32
    m, k = vm.D.num(x), vm.D.num(y)
    if m is not None and k is not None:
        less = m.to_bytes(n, "little") < k.to_bytes(n, "little")
        return vm.D.const((1 << 32) - 1 if less else 1, 32)
    return vm.D.fn("memcmp", (x, y), 32)


def b_malloc(vm, I, a):
    return vm.new("heap", size(vm, a[0], "allocation"), "undef", vm.residue)


def b_memalign(vm, I, a):
    vm.store(a[0], vm.new("heap", size(vm, a[2], "allocation"), "undef", vm.D.num(a[1]) or 16),
             None)
    return (0,) * 32


def b_free(vm, I, a):
    if a[0][0] == "p":
        if vm.objs[a[0][1]].freed or a[0][2] != 0:
            raise Fault("free of something not allocated")
        vm.objs[a[0][1]].freed = True


def b_none(vm, I, a):
    return None


def b_errno(vm, I, a):
    if not hasattr(vm, "errno"):
        vm.errno = vm.new("errno", 4)
    return vm.errno


def b_assert(vm, I, a):
    raise Fault("an assertion fails")


def b_abort(vm, I, a):
    raise Fault("the program aborts")


def b_fsh(left):
    def f(vm, I, a):
        n = vm.D.num(a[2])
        if n is None:
            raise Undecided("shift by data")
        w = len(a[0])
        x = a[1] + a[0]
        n %= w
        return x[w - n:2 * w - n] if left else x[n:n + w]
    return f


def b_bswap(vm, I, a):
    v = a[0]
    return tuple(b for i in reversed(range(0, len(v), 8)) for b in v[i:i + 8])


def lanes(n, f):
    def g(vm, I, a):
        v, k = a[0], vm.D.num(a[1])
        if k is None:
            raise Undecided("shift by data")
        out = ()
        for i in range(0, len(v), n):
            out += f(vm.D, v[i:i + n], k)
        return out
    return g


SHL = lambda D, v, k: D.shl(v, k)
SHR = lambda D, v, k: D.lshr(v, k)


def b_pshufb(vm, I, a):
    v, m = a
    out = ()
    for i in range(0, len(m), 8):
        k = vm.D.num(m[i:i + 8])
        if k is None:
            raise Undecided("shuffle by data")
        out += (0,) * 8 if k & 0x80 else v[8 * (k & 15):8 * (k & 15) + 8]
    return out


def words(v, n=32):
    return [v[i:i + n] for i in range(0, len(v), n)]


def cat(ws):
    return tuple(b for w in ws for b in w)


def x3(D, a, b, c):
    return D.xor(D.xor(a, b), c)


def s0(D, x):
    return x3(D, D.rotr(x, 7), D.rotr(x, 18), D.lshr(x, 3))


def s1(D, x):
    return x3(D, D.rotr(x, 17), D.rotr(x, 19), D.lshr(x, 10))


def S0(D, x):
    return x3(D, D.rotr(x, 2), D.rotr(x, 13), D.rotr(x, 22))


def S1(D, x):
    return x3(D, D.rotr(x, 6), D.rotr(x, 11), D.rotr(x, 25))


def ch(D, x, y, z):
    return D.xor(D.and_(x, y), D.xor(D.and_(x, z), z))


def maj(D, x, y, z):
    return x3(D, D.and_(x, y), D.and_(x, z), D.and_(y, z))


def rnd(D, s, wk):
    """one round of SHA-256, with the word and constant already added"""
    a, b, c, d, e, f, g, h = s
    t1 = D.add(D.add(h, S1(D, e)), D.add(ch(D, e, f, g), wk))
    t2 = D.add(S0(D, a), maj(D, a, b, c))
    return [D.add(t1, t2), a, b, c, D.add(d, t1), e, f, g]


def b_rnds2(vm, I, a):
    D = vm.D
    p, q, k = words(a[0]), words(a[1]), words(a[2])
    s = [q[3], q[2], p[3], p[2], q[1], q[0], p[1], p[0]]
    s = rnd(D, rnd(D, s, k[0]), k[1])
    return cat([s[5], s[4], s[1], s[0]])


def b_msg1(vm, I, a):
    D = vm.D
    w = words(a[0]) + words(a[1])[:1]
    return cat([D.add(w[i], s0(D, w[i + 1])) for i in range(4)])


def b_msg2(vm, I, a):
    D = vm.D
    p, q = words(a[0]), words(a[1])
    w16 = D.add(p[0], s1(D, q[2]))
    w17 = D.add(p[1], s1(D, q[3]))
    w18 = D.add(p[2], s1(D, w16))
    w19 = D.add(p[3], s1(D, w17))
    return cat([w16, w17, w18, w19])


def sbox_table():
    t = [0] * 256
    p = q = 1
    while True:
        p = (p ^ p << 1 ^ (0x1b if p & 0x80 else 0)) & 0xff
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q
        for _ in range(4):
            q = (q << 1 | q >> 7) & 0xff
            x ^= q
        # undo the four rotations
        q = (q << 4 | q >> 4) & 0xff
        t[p] = x ^ 0x63
        if p == 1:
            break
    t[0] = 0x63
    return t


SBOX = sbox_table()


def sub8(D, b):
    n = D.num(b)
    return D.const(SBOX[n], 8) if n is not None else D.fn("S-box", (b,), 8)


def subword(D, w):
    return cat([sub8(D, b) for b in words(w, 8)])


def b_aeskey(vm, I, a):
    D = vm.D
    x = words(a[0])
    rc = vm.D.num(a[1])
    if rc is None:
        raise Undecided("round constant")
    rc = D.const(rc & 255, 32)
    s1_, s3 = subword(D, x[1]), subword(D, x[3])
    return cat([s1_, D.xor(D.rotr(s1_, 8), rc), s3, D.xor(D.rotr(s3, 8), rc)])


def aesnum(s, mix):
    """SubBytes, ShiftRows and MixColumns of a number"""
    xt = lambda x: (x << 1 ^ (0x11b if x & 0x80 else 0)) & 0xff
    s = s.to_bytes(16, "little")
    s = [SBOX[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
    if mix:
        o = []
        for c in range(0, 16, 4):
            a = s[c:c + 4]
            for i in range(4):
                p, q = a[i], a[(i + 1) % 4]
                o.append(xt(p) ^ xt(q) ^ q ^ a[(i + 2) % 4] ^ a[(i + 3) % 4])
        s = o
    return int.from_bytes(bytes(s), "little")


def aesround(D, s, k):
    n, m = D.num(s), D.num(k)
    if n is None or m is None:
        return D.fn("AES round", (s, k), 128)
    return D.const(aesnum(n, True) ^ m, 128)


def aeslast(D, s, k):
    n = D.num(s)
    return D.xor(D.fn("AES last round", (s,), 128) if n is None else
                 D.const(aesnum(n, False), 128), k)


BUILTIN = {
    "llvm.memcpy": b_memcpy, "llvm.memmove": b_memcpy, "memcpy": b_memcpy,
    "memmove": b_memcpy, "llvm.memset": b_memset, "memset": b_memset,
    "insecure_memzero": b_zero, "memcmp": b_memcmp, "bcmp": b_memcmp,
    "malloc": b_malloc, "free": b_free, "posix_memalign": b_memalign,
    "__assert_fail": b_assert, "abort": b_abort,
    "__errno_location": b_errno, "libcperciva_warn": b_none, "libcperciva_warnx": b_none,
    "llvm.fshl": b_fsh(1), "llvm.fshr": b_fsh(0), "llvm.bswap": b_bswap,
    "llvm.x86.sse2.pslli.d": lanes(32, SHL), "llvm.x86.sse2.psrli.d": lanes(32, SHR),
    "llvm.x86.sse2.pslli.q": lanes(64, SHL), "llvm.x86.sse2.psrli.q": lanes(64, SHR),
    "llvm.x86.sse2.pslli.w": lanes(16, SHL), "llvm.x86.sse2.psrli.w": lanes(16, SHR),
    "llvm.x86.ssse3.pshuf.b.128": b_pshufb,
    "llvm.x86.sha256rnds2": b_rnds2, "llvm.x86.sha256msg1": b_msg1,
    "llvm.x86.sha256msg2": b_msg2,
    "llvm.x86.aesni.aeskeygenassist": b_aeskey,
    "llvm.x86.aesni.aesenc": lambda vm, I, a: aesround(vm.D, a[0], a[1]),
    "llvm.x86.aesni.aesenclast": lambda vm, I, a: aeslast(vm.D, a[0], a[1]),
}
