"""How the words of a command line are understood as options."""
import itertools
import os

import engine
import ir
from checklib import VERIF
from vn import Dom, Fault, Undecided, VM
from . import check

CLIENT = os.path.join(VERIF, "sa", "clients", "getopt_client.c")
FIRST = {"-a": (1, 0), "-b": (2, 1), "--foobar": (3, 0), "--foo": (4, 0), "--bar": (5, 1),
         "--barfoo": (6, 1)}
SECOND = {o: v for o, v in FIRST.items() if o != "--foobar"}
MISSING, UNKNOWN = "missing", "unknown"


def meant(words, opts, missing):
    """the options, and the number of the first operand, from getopt.h's description"""
    out, i, k = [], 0, 0
    while i < len(words):
        w = words[i]
        if k:
            o, hasarg = "-" + w[k], opts.get("-" + w[k], (0, 0))[1]
            start, arg, k = i, None, k + 1
            if k == len(w):
                i, k = i + 1, 0
        elif w == "--":
            i += 1
            break
        elif w[:2] == "--":
            o, eq, v = w.partition("=")
            hasarg = opts.get(o, (0, 0))[1]
            arg = (i, len(o) + 1) if eq else None
            i += 1
            if arg and not hasarg:
                out.append((UNKNOWN,))
                continue
        elif w[:1] == "-" and w != "-":
            k = 1
            continue
        else:
            break
        if o not in opts:
            out.append((UNKNOWN,))
            continue
        if hasarg and arg is None:
            if k:
                arg = (start, k)
                i, k = i + 1, 0
            elif i < len(words):
                arg = (i, 0)
                i += 1
            else:
                out.append((MISSING, o) if missing else (UNKNOWN,))
                continue
        out.append((opts[o][0], arg))
    return out, i


HIGH = "\x80"         # stands for any byte with the high bit set


def chars(vm, p):
    """the bytes of a string"""
    for i in range(4096):
        c = vm.get(vm.padd(p, vm.D.const(i, 64)), 1)
        yield c
        if vm.D.num(c) == 0:
            return
        if 1 not in c:
            raise Undecided("string of unknown length")
    raise Undecided("endless string")


def compare(limit):
    def f(vm, I, a):
        n = vm.D.num(a[2]) if limit else 4096
        if n is None:
            raise Undecided("comparison of unknown length")
        for i in range(n):
            o = vm.D.const(i, 64)
            x, y = (vm.get(vm.padd(r, o), 1) for r in a[:2])
            if x != y:
                if not any(p < 2 and q < 2 and p != q for p, q in zip(x, y)):
                    raise Undecided("comparison of unknown text")
                lo, hi = ((sum((q if q < 2 else d) << i for i, q in enumerate(v))
                           for d in (0, 1)) for v in (x, y))
                return vm.D.const((1 << 32) - 1 if list(lo)[1] < list(hi)[0] else 1, 32)
            if vm.D.num(x) == 0:
                break
        return (0,) * 32
    return f


def find(last):
    def f(vm, I, a):
        r = (0,) * 64
        for i, x in enumerate(chars(vm, a[0])):
            c = a[1][:8]
            if x == c:
                r = vm.padd(a[0], vm.D.const(i, 64))
                if not last:
                    break
            elif not any(p < 2 and q < 2 and p != q for p, q in zip(x, c)):
                raise Undecided("search in unknown text")
        return r
    return f


def dup(vm, I, a):
    s = list(chars(vm, a[0]))
    p = vm.new("heap", len(s))
    for i, c in enumerate(s):
        vm.put(vm.padd(p, vm.D.const(i, 64)), c)
    return p


def calloc(vm, I, a):
    m, n = vm.D.num(a[0]), vm.D.num(a[1])
    if m is None or n is None:
        raise Undecided("allocation of unknown length")
    return vm.new("heap", m * n, "zero")


def realloc(vm, I, a):
    n = vm.D.num(a[1])
    if n is None:
        raise Undecided("allocation of unknown length")
    p = vm.new("heap", n)
    if a[0][0] == "p":
        o = vm.objs[a[0][1]]
        vm.storebytes(p, vm.loadbytes(a[0], min(n, o.size)))
        o.freed = True
    return p


class Ended(Exception):
    pass


def end(vm, I, a):
    raise Ended("the program exits")


class Line:
    """one analysis of command lines"""

    def __init__(self, cx, prog):
        self.ev = []
        self.words = {}
        D = self.D = Dom()
        c = {
            "ev_opt": lambda vm, I, a: self.tell((D.num(a[0]), self.where(a[1]))),
            "ev_missing": lambda vm, I, a: self.tell((MISSING, self.text(vm, a[0]))),
            "ev_unknown": lambda vm, I, a: self.tell((UNKNOWN,)),
            "strncmp": compare(True), "strcmp": compare(False),
            "strlen": lambda vm, I, a: D.const(len(list(chars(vm, a[0]))) - 1, 64),
            "strchr": find(False), "strrchr": find(True), "strdup": dup,
            "calloc": calloc, "realloc": realloc,
            "atexit": lambda vm, I, a: (0,) * 32, "exit": end, "_exit": end,
        }
        for n in ("warn", "warnx", "libcperciva_warn", "libcperciva_warnx", "fprintf",
                  "warnp_setprogname", "fputs", "fputc"):
            c[n] = lambda vm, I, a: (0,) * 32
        self.vm = VM(prog, D, c, 100000)

    def tell(self, e):
        self.ev.append(e)

    def where(self, p):
        if p[0] != "p":
            return None if self.D.num(p) == 0 else "elsewhere"
        w = self.words.get(p[1])
        return (w, p[2]) if w is not None else "elsewhere"

    def text(self, vm, p):
        return "".join(chr(vm.D.num(c) or 0) for c in list(chars(vm, p))[:-1])

    def argv(self, words, base):
        vm, D = self.vm, self.D
        p = vm.new("argv", 8 * (len(words) + 2))
        for i, w in enumerate(("/usr/bin/scrypt",) + tuple(words)):
            q = vm.new("word %d" % i, len(w) + 1)
            for j, c in enumerate(w + "\0"):
                t = D.const(ord(c), 8)
                if c == HIGH:
                    t = D.named(("ch", base, i, j), 8)[:7] + (1,)
                vm.put(("p", q[1], j), t)
            vm.store(("p", p[1], 8 * i), q, None)
            if i:
                self.words[q[1]] = base + i - 1
        vm.put(("p", p[1], 8 * (len(words) + 1)), (0,) * 64)
        return [D.const(len(words) + 1, 32), p]


def spell(w):
    return "'%s'" % w.replace(HIGH, "?")


def parse(cx, fn, lines, want):
    cx.ob("command lines")
    text = " then ".join(" ".join(map(spell, w)) or "no words" for w in lines)
    L = Line(cx, cx.prog())
    args = []
    for k, words in enumerate(lines):
        args += L.argv(words, 50 * k)
    why = None
    try:
        r = L.vm.call(fn, args)
        ind = L.D.num(r)
        got = (tuple(L.ev), ind)
    except Fault as e:
        why = "%s at %s" % (e.args[0], getattr(e, "where", "?"))
    except Ended as e:
        why = e.args[0]
    except Undecided as e:
        if L.vm.steps > L.vm.maxsteps:
            cx.violation("words", "getopt", "%s: parsing does not end" % text)
            return
        cx.notes.append("cannot decide how %s is understood: %s" % (text, e.args[0]))
        cx.ob("command lines undecided")
        return
    finally:
        cx.steps += L.vm.steps
        cx.funcs |= {"%s (%s)" % (engine.cname(f.name), f.module.path) for f in L.vm.funcs
                     if f.module.path != CLIENT}
    if L.vm.taken or why is None and ind is None:
        cx.notes.append("how %s is understood depends on unknown characters" % text)
        cx.ob("command lines undecided")
        return
    if why is not None:
        cx.violation("words", "getopt", "%s: %s" % (text, why))
        return
    if got == want:
        return
    names = {v[0]: o for o, v in FIRST.items()}

    def tell(ev, ind):
        return ", ".join([names[e[0]] + ("" if e[1] is None else " with byte %d of word %d on" % (
            e[1][1], e[1][0] + 1) if len(e[1]) == 2 else " with an argument not from there")
            if e[0] in names else " ".join(map(str, e)) for e in ev] + ["operands from %s" % ind])
    cx.violation("words", "getopt", "%s: understood as %s; expected %s" % (
        text, tell(*got), tell(*want)))


def options(cx, deep=False, light=False):
    prog = ir.build_program(clients=[CLIENT])
    keep = cx.progs.get(cx.config)
    cx.progs[cx.config] = prog
    try:
        T1 = ["-a", "-b", "--foo", "--bar", "x"]
        T2 = ["-ab", "-ba", "-aab\x80", "-b\x80\x80", "-x", "-ax", "-xa", "-xb", "-b=\x80", "-a=", "-a-b",
              "--foo=", "--foo=\x80", "--foobar", "--fo", "--foob", "--foox", "--bar=",
              "--bar=\x80\x80", "--barfoo", "--barfoo=\x80", "--barf", "--barx", "--bar\x80", "--x", "--", "-", "",
              "---", "--=", "-A", "--Foo", "a", "\x80-a", "--a", "-aa", "-bb", "--bar==", "--foo --bar"]
        lines = [()] + [(a,) for a in T1 + T2]
        lines += list(itertools.product(T1 + T2, T1)) + list(itertools.product(T1, T2))
        lines += [("--bar", x, "-a") for x in T2] + [("-b", x, "-a") for x in T2]
        lines += [(x, "-ab", "--bar", "--", "-a") for x in T2]
        lines += [("-aab", "-b", "-a", "--", "-a"), ("-a", "--", "--", "-b"), ("-a",) * 5,
                  ("--foo", "--foobar", "--bar=1", "--barfoo", "2", "-", "-a")]
        if deep:
            lines += list(itertools.product(T1 + T2, repeat=2))
            lines += list(itertools.product(T1 + ["--foo=", "--bar=\x80", "-ab", "--", "-x"],
                                            repeat=3))
        if light:
            lines = lines[:60] + lines[60::4]
        for ws in sorted(set(lines)):
            ev, ind = meant(ws, FIRST, True)
            parse(cx, "sa_getopt_client", [ws], (tuple(ev), ind + 1))
        for ws in sorted(set(lines[::5 if not deep else 2])):
            ev, ind = meant(ws, SECOND, False)
            parse(cx, "sa_getopt_client2", [ws], (tuple(ev), ind + 1))
        for a in ((), ("-ab",), ("--bar",), ("-aa", "x"), ("-x",), ("--", "x"), ("-cc", "-c")):
            for b in ((), ("-a", "-b"), ("--bar=1", "--foobar"), ("x",)):
                e1, _ = meant(a, FIRST, True)
                e2, ind = meant(b, SECOND, False)
                e2 = [(e[0], (e[1][0] + 50, e[1][1])) if e[0] in range(9) and e[1] else e
                      for e in e2]
                parse(cx, "sa_getopt_twice", [a, b],
                      (tuple(e1) + ((UNKNOWN,),) + tuple(e2), ind + 1))
                if a:
                    parse(cx, "sa_getopt_stopped", [a, b], (tuple(e2), ind + 1))
    finally:
        cx.progs[cx.config] = keep
        if keep is None:
            del cx.progs[cx.config]
    cx.need("command lines", 150 if light else 400, "command lines")
    if cx.obl.get("command lines undecided", 0) > 60:
        cx.broken("too many command lines cannot be decided")


@check("P36", "value-numbering evaluation of option parsing over a grammar of command lines",
       """getopt() and the macros which register options are analysed together with users of
       them, for command lines of words of each kind, characters of arguments unknown; what the
       user is told is compared with a parser written from the documentation.""")
def p36(cx):
    cx.rule("words: each option is told, in order, exactly once, with its own argument; options "
            "not registered or with an unwanted argument are told as unknown, those without "
            "their argument as missing; parsing stops at the first operand or after '--'")
    options(cx, cx.tier == "thorough")
