"""The command line program: exit status, order of effects, options."""
import itertools
import re
import struct
import encmon
import fmt
import models as M
import mons
import terms as T
from engine import Monitor
from models import Outcome, fork
from terms import C, ZERO
from . import check, getopt, numbers
from .core import ENGINE, core_models, core_run
from .errors import successes

NEG1 = C(-1, 32)
FIELDS = {"-M": (0, 8), "-m": (8, 8), "-t": (16, 8), "--logN": (24, 4), "-r": (28, 4),
          "-p": (32, 4)}
RANGE = {"--logN": (10, 40), "-r": (1, 32), "-p": (1, 2048)}
OPTARG = ("--logN", "-M", "-m", "-p", "--passphrase", "-r", "-t")
KNOWN = OPTARG + ("-f", "-v", "-P")
IND = 5                 # representative index of the first operand


def ext(name):
    return ("p", ("ext", name), ZERO)


def gvar(E, name):
    for m in E.prog.modules:
        for n in (name, "libcperciva_" + name):
            g = m.globals.get(n)
            if g is not None and g.init is not None:
                return ("p", ("g", g.key), ZERO)
    E.cx.broken("global variable %s not found" % name)


class Cli:
    """contracts of what main() calls. allow: the options that may be given"""

    def __init__(self, allow, bad=True):
        self.allow = allow
        self.bad = bad
        self.reg = {}
        self.other = {}

    def getopt(self, E, st, I, a):
        if E.constval(st, E.load(st, gvar(E, "getopt_initialized"), 4)) == 0:
            return Outcome(st, ext("dummy"), "any")
        outs = []
        for os, (ln, hasarg) in sorted(self.reg.items()):
            if os not in self.allow:
                continue
            s = fork(st)
            E.store(s, gvar(E, "optarg"), 8, ext("optarg:" + os) if hasarg else ZERO)
            outs.append(Outcome(s, ext("opt:" + os), "opt " + os))
        if self.bad:
            outs.append(Outcome(fork(st), ext("missing"), "bad missing argument"))
            outs.append(Outcome(fork(st), ext("unknown"), "bad unknown option"))
        E.store(st, gvar(E, "optind"), 4, C(IND, 32))
        for i in (0, 1):
            E.store(st, T.add(a[1], C(8 * (IND + i), 64), 64), 8, ext("operand%d" % i))
        E.store(st, T.add(a[1], C(8 * (IND + 2), 64), 64), 8, ZERO)
        outs.append(Outcome(st, ZERO, "end"))
        return outs

    def lookup(self, E, st, I, a):
        p = E.toptr(a[0])
        n = p[1][1] if p[1][0] == "ext" else "?"
        if n.startswith("opt:"):
            return Outcome(st, C(self.reg[n[4:]][0], 64), "any")
        if n == "dummy":
            E.cx.broken("option lookup before the options are known")
        if n in self.other:
            return Outcome(st, C(self.other[n], 64), "any")
        if n == "missing" and "missing" not in self.other:
            return Outcome(st, C(self.other["unknown"], 64), "any")
        E.cx.broken("options are looked up by something getopt() did not return")

    def register(self, E, st, I, a):
        os = M.cstr(E, st, a[0])
        ln, ha = E.constval(st, a[1]), E.constval(st, a[2])
        if os is None or ln is None or ha is None:
            E.cx.broken("options are registered with computed values")
        os = os.decode() if isinstance(os, bytes) else os
        self.reg[os] = (ln, ha)
        return Outcome(st)

    def regmissing(self, E, st, I, a):
        self.other["missing"] = E.constval(st, a[0])
        return Outcome(st)

    def setrange(self, E, st, I, a):
        # getopt.c uses one more than the number of slots
        self.other["unknown"] = E.constval(st, a[0]) + 1
        return Outcome(st)

    def strcmp(self, E, st, I, a):
        s = [M.cstr(E, st, x) for x in a[:2]]
        s2 = fork(st)
        r = E.fresh(s2, I, "cmp", 32)
        E.assume(s2, T.mkcmp("ne", r, C(0, 32)), 1)
        lit = s[1] if s[1] is not None else s[0]
        p = a[0] if s[1] is not None else a[1]
        if lit is None:
            return [Outcome(st, C(0, 32), "any"), Outcome(s2, r, "any")]
        lit = lit.decode(errors="replace") if isinstance(lit, bytes) else lit
        who = p[1][1] if p[0] == "p" and p[1][0] == "ext" else "arg"
        return [Outcome(st, C(0, 32), "is %s %s" % (who, lit)),
                Outcome(s2, r, "isnt %s %s" % (who, lit))]

    def strtox(self, E, st, I, a):
        o = M.m_strtox(E, st, I, a)
        st.x[("numof", o.ret)] = a[0]
        return o

    def humansize_parse(self, E, st, I, a):
        s2 = fork(st)
        r = E.fresh(st, I, "size", 64)
        E.store(st, a[1], 8, r, I)
        st.x[("numof", r)] = a[0]
        E.havoc_range(s2, a[1], 8, I, "size?")
        return [Outcome(st, C(0, 32), "ok"), Outcome(s2, NEG1, "fail")]

    def pp_parse(self, E, st, I, a):
        s2 = fork(st)
        r = E.fresh(st, I, "entry", 32)
        E.assume(st, T.mkcmp("ne", r, C(0, 32)), 1)
        E.store(st, a[1], 4, r, I)
        st.x[("numof", r)] = a[0]
        E.store(st, a[2], 8, ext("pparg"), I)
        return [Outcome(st, C(0, 32), "ok"), Outcome(s2, NEG1, "complains")]

    def pp_read(self, E, st, I, a):
        s2 = fork(st)
        p = M.heap(E, st, I, None, ("undef",), "pw")
        E.havoc_range(st, p, None, I, "passwd")
        E.store(st, a[0], 8, p, I)
        return [Outcome(st, C(0, 32), "ok"), Outcome(s2, NEG1, "fail")]

    def code(self, E, st, I, a):
        s2 = fork(st)
        r = E.fresh(s2, I, "rc", 32)
        E.assume(s2, T.mkcmp("ne", r, C(0, 32)), 1)
        E.assume(s2, T.mkcmp("ule", r, C(15, 32)), 1)
        return [Outcome(st, C(0, 32), "ok"), Outcome(s2, r, "fail")]

    def prep(self, E, st, I, a):
        o = self.code(E, st, I, a)
        p = M.heap(E, st, I, None, ("undef",), "cookie")
        E.store(st, a[6], 8, p, I)
        return o

    def models(self):
        d = M.models(M.UTIL)
        d.update({
            "getopt": self.getopt, "getopt_lookup": self.lookup,
            "getopt_register_opt": self.register,
            "getopt_register_missing": self.regmissing, "getopt_setrange": self.setrange,
            "strcmp": self.strcmp, "strtoumax": self.strtox, "strtoimax": self.strtox,
            "strtod": self.strtox, "strtoul": self.strtox, "strtoull": self.strtox,
            "humansize_parse": self.humansize_parse,
            "passphrase_entry_parse": self.pp_parse,
            "passphrase_entry_readpass": self.pp_read,
            "scryptenc_file": self.code, "scryptdec_file_prep": self.prep,
            "scryptdec_file_copy": self.code, "scryptdec_file_printparams": self.code,
            "scryptdec_file_cookie_free": M.m_void, "scryptenc_print_error": M.m_void,
        })
        return d


DIAG = ("warn", "warnx", "warnp", "warn0", "scryptenc_print_error", "fprintf", "fputs",
        "vfprintf", "perror", "fwrite", "write")
OPS = ("scryptenc_file", "scryptdec_file_prep", "scryptdec_file_copy",
       "scryptdec_file_printparams")
# calls which could change a file other than the output
FORBIDDEN = ("remove", "unlink", "rename", "truncate", "ftruncate", "mkstemp", "tmpfile",
             "unlinkat", "renameat", "link", "symlink", "chmod", "rmdir", "freopen", "creat")


class CliMon(Monitor):
    """follows what the command line asked for and what was done"""

    def __init__(self, rules):
        self.rules = set(rules)

    def rep(self, E, st, rule, I, msg):
        if rule in self.rules:
            E.report(st, rule, I, msg)

    def ev(self, st):
        return st.mon.get("ev", ())

    def has(self, st, e):
        return e in self.ev(st)

    def note(self, st, e):
        cur = self.ev(st)
        if e not in cur:
            st.mon["ev"] = tuple(sorted(cur + (e,)))

    # -- before a call ---------------------------------------------------------------
    def pre(self, E, st, I, fn, args):
        cx = E.cx
        if fn in FORBIDDEN:
            self.rep(E, st, "ORDER", I, "%s() on a file" % fn)
        if fn in ("fopen", "fopen64", "open", "open64"):
            self.open(E, st, I, fn, args)
        elif fn == "passphrase_entry_readpass":
            self.passphrase(E, st, I, args)
        elif fn in OPS:
            self.op(E, st, I, fn, args)

    def mode(self, st):
        for e in self.ev(st):
            if e.startswith("is arg ") and e[7:] in ("enc", "dec", "info"):
                return e[7:]
        return None

    def opts(self, st):
        return {e[4:] for e in self.ev(st) if e.startswith("opt ")}

    def open(self, E, st, I, fn, args):
        cx = E.cx
        if fn.startswith("open"):
            self.rep(E, st, "ORDER", I, "a file is opened with open()")
            return
        md = M.cstr(E, st, args[1])
        md = md.decode() if isinstance(md, bytes) else md
        name = args[0][1][1] if args[0][0] == "p" and args[0][1][0] == "ext" else "?"
        if md is None:
            self.rep(E, st, "ORDER", I, "a file is opened in a computed mode")
            return
        cx.ob("files opened")
        if md[0] == "r" and "+" not in md:
            if name != "operand0":
                self.rep(E, st, "FILES", I, "what is opened for reading is not the input "
                         "file operand")
            if self.dash(E, st):
                self.rep(E, st, "FILES", I, "an operand '-' is opened instead of reading "
                         "standard input")
            return
        cx.ob("files opened for writing")
        if name != "operand1":
            self.rep(E, st, "FILES", I, "what is opened for writing is not the output file "
                     "operand")
        if self.mode(st) == "info":
            self.rep(E, st, "INFO", I, "a file is opened for writing in info mode")
        if self.mode(st) != "enc" and not self.has(st, "ok scryptdec_file_prep"):
            self.rep(E, st, "ORDER", I, "the output file is opened (and truncated) before "
                     "the header was verified and the passphrase found right")
        if self.mode(st) == "enc" and not self.has(st, "ok passphrase_entry_readpass"):
            self.rep(E, st, "ORDER", I, "the output file is opened (and truncated) before "
                     "the passphrase was obtained")
        if md[0] != "w":
            self.rep(E, st, "ORDER", I, "the output file is opened without truncating it")

    def passphrase(self, E, st, I, args):
        cx = E.cx
        cx.ob("passphrases asked for")
        if self.mode(st) == "info":
            self.rep(E, st, "INFO", I, "a passphrase is asked for in info mode")
        d = E.decide(st, T.mkcmp("ne", args[5], C(0, 32)))
        want = 1 if self.mode(st) == "dec" else 0
        if d != want:
            self.rep(E, st, "PASS", I, "the passphrase is %s when %s" %
                     ("asked for twice" if want else "not confirmed",
                      "decrypting" if want else "encrypting"))
        if args[4] == ZERO and not want:
            self.rep(E, st, "PASS", I, "no prompt to confirm the passphrase")
        o = self.opts(st)
        e = args[1]
        src = st.x.get(("numof", e))
        if "--passphrase" in o:
            if src != ext("optarg:--passphrase") or args[2] != ext("pparg"):
                self.rep(E, st, "PASS", I, "--passphrase was given but its method and "
                         "argument are not what is used")
        else:
            v = E.constval(st, e)
            k = "-P" if "-P" in o else "default"
            want = getattr(cx, "entries", {}).get(
                "stdin-once" if k == "-P" else "tty-stdin")
            if want is not None and v != want:
                self.rep(E, st, "PASS", I, "%s, but the passphrase entry method used is not "
                         "%s" % ("-P was given" if k == "-P" else
                                 "no passphrase option was given",
                                 "stdin-once" if k == "-P" else "tty-stdin"))
        once = getattr(cx, "entries", {}).get("stdin-once")
        if once is not None and self.dash(E, st) is not False and \
                E.decide(st, T.mkcmp("ne", e, C(once, 32))) != 1:
            self.rep(E, st, "PASS", I, "the passphrase may be read from standard input, "
                     "which is also the file to process")

    def op(self, E, st, I, fn, args):
        cx = E.cx
        md = self.mode(st)
        cx.ob("operations started")
        want = {"scryptenc_file": "enc", "scryptdec_file_prep": "dec",
                "scryptdec_file_copy": "dec", "scryptdec_file_printparams": "info"}[fn]
        if md != want:
            self.rep(E, st, "MODE", I, "%s() is called though the first argument is %s" %
                     (fn, "'%s'" % md if md else "none of enc, dec and info"))
        if fn == "scryptdec_file_copy" and not self.has(st, "ok scryptdec_file_prep"):
            self.rep(E, st, "ORDER", I, "decrypting although the header was not verified")
        if not hasattr(cx, "reached"):
            cx.reached = set()
        cx.reached |= {(md, o) for o in self.opts(st) | {"operands"}}
        for e in self.ev(st):
            if e.startswith("bad "):
                self.rep(E, st, "OPTIONS", I, "the operation is started in spite of a " +
                         e[4:])
        # the file worked on
        f = args[0] if fn != "scryptdec_file_copy" else None
        dash = self.dash(E, st)
        if f is not None:
            if dash is None:
                self.rep(E, st, "FILES", I, "the operation is started without having looked "
                         "whether the operand is '-'")
            elif dash != self.stdio(E, st, f, "stdin") or not dash and \
                    st.x.get(("fopened", E.toptr(f))) != ("operand0", "r"):
                self.rep(E, st, "FILES", I, "the input is not the file operand (or standard "
                         "input for '-')")
        if fn in ("scryptenc_file", "scryptdec_file_copy"):
            o = args[1]
            out = st.x.get(("fopened", E.toptr(o)))
            std = self.stdio(E, st, o, "stdout")
            two = E.decide(st, T.mkcmp("sgt", self.argc(st), C(IND + 2, 32)))
            if not (std and two == 0 or out == ("operand1", "w") and two == 1):
                self.rep(E, st, "FILES", I, "the output is not the second file operand (or "
                         "standard output if there is none)")
        if fn in ("scryptenc_file", "scryptdec_file_prep"):
            self.params(E, st, I, fn, args)
        n = self.argc(st)
        if E.decide(st, T.mkcmp("sgt", n, C(IND + 1, 32))) != 1 or \
                E.decide(st, T.mkcmp("sle", n, C(IND + 3, 32))) != 1:
            self.rep(E, st, "OPTIONS", I, "the operation is started with no file operand or "
                     "more than two")

    def dash(self, E, st):
        """whether the first operand is '-', None if unknown"""
        if self.has(st, "is operand0 -"):
            return True
        if self.has(st, "isnt operand0 -"):
            return False
        b = [E.load(st, T.add(ext("operand0"), C(i, 64), 64), 1) for i in (0, 1)]
        d = [E.decide(st, T.mkcmp("eq", x, C(v, 8))) for x, v in zip(b, (45, 0))]
        return True if d == [1, 1] else False if 0 in d else None

    def argc(self, st):
        return ("s", ("arg", 0), 32)

    def stdio(self, E, st, f, name):
        try:
            return f == E.load(st, ("p", ("g", name), ZERO), 8)
        except Exception:
            return False

    def params(self, E, st, I, fn, args):
        cx = E.cx
        enc = fn == "scryptenc_file"
        pw, pl, P, vb, fc = args[2:7] if enc else args[1:6]
        o = self.opts(st)
        cx.ob("passphrases handed over")
        pwd = st.x.get("pw")
        if pw != pwd or pl != st.x.get("pwlen"):
            self.rep(E, st, "WHOLE", I, "the operation is not given the whole passphrase that "
                     "was entered")
        for opt, t, what in (("-v", vb, "verbose"), ("-f", fc, "force")):
            d = E.decide(st, T.mkcmp("ne", t, C(0, 32)))
            cx.ob("options followed")
            if d != (1 if opt in o else 0):
                self.rep(E, st, "OPTIONS", I, "%s is %sgiven but the operation is %stold to "
                         "%s" % (opt, "" if opt in o else "not ",
                                 "not always " if opt in o else "possibly ", what))
        dflt = {"-M": 0, "-m": 0x3fc0000000000000 if enc else 0x3fe0000000000000,
                "-t": 0x4014000000000000 if enc else 0x4072c00000000000,
                "--logN": 0, "-r": 0, "-p": 0}
        for opt, (off, n) in FIELDS.items():
            v = E.load(st, T.add(P, C(off, 64), 64), n)
            cx.ob("options followed")
            if opt not in o:
                if fbits(E, st, v) != dflt[opt]:
                    self.rep(E, st, "OPTIONS", I, "without %s the parameter it sets is not "
                             "at its documented default" % opt)
                continue
            src = self.numof(E, st, v)
            if src != ext("optarg:" + opt):
                self.rep(E, st, "OPTIONS", I, "the value given to %s is not what the "
                         "operation uses" % opt)
                continue
            if opt in RANGE:
                lo, hi = RANGE[opt]
                r = E.rng(st, v)
                if r.ulo < lo or r.uhi > hi:
                    self.rep(E, st, "RANGE", I, "%s accepts values outside of %d..%d" %
                             (opt, lo, hi))
                elif r.ulo > lo or r.uhi < hi:
                    self.rep(E, st, "RANGE", I, "%s refuses values inside %d..%d" %
                             (opt, lo, hi))
            if opt in ("-m", "-t"):
                self.frange(E, st, I, opt, v)
        g = o & {"--logN", "-r", "-p"}
        if g and len(g) < 3:
            self.rep(E, st, "OPTIONS", I, "only some of --logN, -r and -p are given but the "
                     "operation goes ahead")
        if g and not enc:
            self.rep(E, st, "OPTIONS", I, "--logN, -r or -p is accepted when decrypting")

    def numof(self, E, st, v):
        todo, seen = [v], set()
        while todo:
            t = todo.pop()
            if t in seen or not isinstance(t, tuple):
                continue
            seen.add(t)
            s = st.x.get(("numof", t))
            if s is not None:
                return s
            if t[0] == "o":
                if t[1] in ("trunc", "zext", "sext", "and"):
                    todo += list(t[3])
            elif t[0] == "cat":
                todo += list(t[2])
            elif t[0] == "by":
                todo.append(t[1])
        return None

    def frange(self, E, st, I, opt, v):
        lo, hi, ne0 = False, opt == "-t", opt == "-t"
        for (a, b, pred), val in st.rel.items():
            if not isinstance(pred, str) or pred[0] != "f":
                continue
            p = pred[1:]
            if b == v and fbits(E, st, a) is not None:
                a, b = b, a
                p = {"olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole", "ult": "ugt",
                     "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
            k = fbits(E, st, b)
            if a != v or k is None:
                continue
            if not val:
                p = {"olt": "uge", "ogt": "ule", "ole": "ugt", "oge": "ult", "ult": "oge",
                     "ugt": "ole", "ule": "ogt", "uge": "olt", "oeq": "une",
                     "une": "oeq", "one": "ueq", "ueq": "one"}.get(p, p)
            if k in (0, 1 << 63):
                lo |= p in ("oge", "ogt")
                ne0 |= p in ("ogt", "une", "one")
            if k == 0x3fe0000000000000 and p in ("ole", "olt"):
                hi = True
        if not (lo and hi and ne0):
            self.rep(E, st, "RANGE", I, "%s accepts a value %s" % (
                opt, "below 0 or not a number" if not lo else "above 0.5" if not hi else
                "of 0"))

    # -- after a call -----------------------------------------------------------------
    def post(self, E, st, I, fn, args, ret, tag):
        cx = E.cx
        if args is None:
            return
        if tag and (tag.startswith("opt ") or tag.startswith("is arg ") or
                    tag.startswith("is operand") or tag.startswith("isnt operand0 -") or tag.startswith("bad ")):
            self.note(st, tag)
            if tag.startswith("opt "):
                cx.ob("options processed")
        if tag == "ok" and fn in OPS + ("passphrase_entry_readpass",):
            self.note(st, "ok " + fn)
        if tag == "complains":
            self.note(st, "message")
            self.note(st, "failed " + fn)
        if tag == "fail" and fn != "free":
            if fn in ("fclose", "fflush") and self.isinput(E, st, args[0]):
                return
            self.note(st, "failed " + fn)
        if tag == "ok" and fn in ("fopen", "fopen64"):
            name = args[0][1][1] if args[0][0] == "p" and args[0][1][0] == "ext" else "?"
            md = M.cstr(E, st, args[1])
            md = md.decode() if isinstance(md, bytes) else md
            st.x[("fopened", E.toptr(ret))] = (name, (md or "?")[0])
        if tag == "ok" and fn in ("fclose", "fflush") and not self.isinput(E, st, args[0]):
            self.note(st, "flushed")
        if fn == "passphrase_entry_readpass" and tag == "ok":
            st.x["pw"] = E.load(st, args[0], 8)
        if fn == "strlen" and args[0] == st.x.get("pw"):
            st.x["pwlen"] = ret
        if fn in ("scryptenc_file", "scryptdec_file_copy"):
            st.mon["ev"] = tuple(e for e in self.ev(st) if e != "flushed")
        if fn in DIAG:
            if fn in ("fprintf", "fputs", "vfprintf", "fwrite"):
                f = args[0] if fn in ("fprintf", "vfprintf") else args[-1]
                if not self.stdio(E, st, f, "stderr"):
                    return
            self.note(st, "message")

    def isinput(self, E, st, f):
        return st.x.get(("fopened", E.toptr(f))) == ("operand0", "r") or \
            self.stdio(E, st, f, "stdin")

    # -- the end -----------------------------------------------------------------------
    def exit(self, E, st, code, I):
        self.end(E, st, code, I)

    def ret(self, E, st, val):
        fr = st.frames[-1]
        self.end(E, st, val, fr.func.blocks[fr.block].insts[fr.idx])

    def end(self, E, st, code, I):
        cx = E.cx
        ev = self.ev(st)
        v = E.constval(st, code)
        cx.ob("ways to end")
        md = self.mode(st)
        done = {"enc": ("ok scryptenc_file", "flushed"),
                "dec": ("ok scryptdec_file_prep", "ok scryptdec_file_copy", "flushed"),
                "info": ("ok scryptdec_file_printparams",)}.get(md)
        failed = [e for e in ev if e.startswith("failed ") or e.startswith("bad ")]
        if self.has(st, "is arg --version"):
            done, failed = (), []
        ok = done is not None and all(e in ev for e in done) and not failed
        if v is None:
            z = E.decide(st, T.mkcmp("ne", code, C(0, 32)))
            v = 1 if z == 1 else None
        if v is None:
            if not ok:
                self.rep(E, st, "EXIT", I, "the exit status is not a constant")
            return
        if v & 0xff == 0:
            cx.ob("successful ends")
            if failed:
                self.rep(E, st, "EXIT", I, "exit status 0 although %s" %
                         ", ".join(e.replace("failed ", "") + "() failed" if
                                   e.startswith("failed") else e for e in failed))
            elif not ok:
                self.rep(E, st, "EXIT", I, "exit status 0 although the requested operation "
                         "was not completed (%s)" % (
                             ", ".join(e for e in done if e not in ev) if done is not None
                             else "no valid operation"))
        else:
            cx.ob("failing ends")
            if ok:
                self.rep(E, st, "EXIT", I, "exit status %d although everything succeeded" % v)
            if not self.has(st, "message"):
                self.rep(E, st, "MESSAGE", I, "the program fails without printing a message")


def entries(cx):
    """value stored by passphrase_entry_parse() for each method string"""
    if hasattr(cx, "entries"):
        return cx.entries
    res = {}

    class Mon(Monitor):
        def post(self, E, st, I, fn, args, ret, tag):
            if tag and tag.startswith("is "):
                st.mon["lits"] = st.mon.get("lits", ()) + (tag.split(" ", 2)[2],)

        def ret(self, E, st, val):
            if E.constval(st, val) != 0:
                return
            v = E.constval(st, E.load(st, ("p", ("arg", 1), ZERO), 4))
            for s in st.mon.get("lits", ()):
                res.setdefault(s, set()).add(v)
    c = Cli(())
    d = M.models(M.UTIL)

    def strn(E, st, I, a):
        return c.strcmp(E, st, I, a)
    d["strcmp"] = d["strncmp"] = d["strcasecmp"] = strn
    cx.run("passphrase_entry_parse", d, [Mon()], quiet=True, unroll=16)
    cx.entries = {k: min(v) for k, v in res.items() if len(v) == 1 and None not in v}
    return cx.entries


def sets(tier):
    base = [(a,) for a in KNOWN] + list(itertools.combinations(KNOWN, 2))
    base.append(("--logN", "-r", "-p"))
    if tier == "thorough":
        base += list(itertools.combinations(KNOWN, 3))
    return base


def fbits(E, st, t):
    if t[0] == "fp":
        return struct.unpack("<Q", struct.pack("<d", t[1]))[0]
    return E.constval(st, t)


def start(E, st):
    E.coarse = False
    E.store(st, gvar(E, "getopt_initialized"), 4, C(0, 32))
    st.x["argc"] = ("s", ("arg", 0), 32)
    # argc is the length of an array
    E.assume(st, T.mkcmp("sgt", ("s", ("arg", 0), 32), C(0, 32)), 1)
    E.assume(st, T.mkcmp("slt", ("s", ("arg", 0), 32), C(1 << 24, 32)), 1)


def cli(cx, rules, allows=((),), extra=()):
    entries(cx)
    opts = set()
    for al in allows:
        c = Cli(al, bad=len(al) <= 1)
        ms = [CliMon(rules)] + [m() for m in extra]
        cx.run("main", c.models(), ms, setup=start, unroll=2 + len(al))
        opts |= set(c.reg)
    for o in KNOWN:
        cx.ob("options known", o in opts)
        if o not in opts and "OPTIONS" in rules:
            cx.violation("OPTIONS", "main.c (main)", "option %s is not recognised" % o)


# -- the properties ------------------------------------------------------------------------

CLI = ENGINE + """The analysis starts at main() with an unknown argument vector: getopt() returns
       any sequence of the options allowed in a run (and, where stated, missing arguments and
       unknown options), every comparison and parse takes both outcomes, and the library
       operations and file calls may succeed or fail. """
SINGLE = [()] + [(o,) for o in KNOWN]


class Message(Monitor):
    """a failing return comes with a diagnostic"""

    def post(self, E, st, I, fn, args, ret, tag):
        if fn in DIAG or fn in ("readpass", "readpass_file") and tag == "fail":
            st.mon["said"] = True

    def ret(self, E, st, val):
        if val is not None and E.decide(st, T.mkcmp("eq", val, C(0, T.width(val)))) == 0:
            E.cx.ob("failing returns of functions that report themselves")
            if not st.mon.get("said"):
                E.report(st, "MESSAGE", E.entry.name, "failure without a message")


@check("P01", "path-sensitive abstract interpretation of main() with a completion/failure "
       "typestate", CLI + """At every end of the program the exit status is compared with what
       was done: status 0 needs the requested operation to have completed with every step,
       including the final flush and close of the output, successful; any other end needs a
       non-zero status and a diagnostic. The library operations are checked against the
       contract used for them: no success value after a failed step.""",
       configs=("native",))
def p01(cx):
    cx.rule("EXIT: exit status 0 iff the requested operation completed and no step failed, "
            "including flushing and closing the output")
    cx.rule("MESSAGE: every other end prints a diagnostic")
    cx.rule("SUCCESS: the operations called report success only if all their steps did")
    cx.rule("AUTH, STREAM: decryption succeeds only after verification; all input is "
            "processed and all output written")
    cli(cx, {"EXIT", "MESSAGE"}, SINGLE + [("--logN", "-r", "-p"), ("-f", "-v")])
    cx.run("passphrase_entry_parse", dict(M.models(M.UTIL), strncmp=m_bothcmp,
                                          strcmp=m_bothcmp), [Message()])
    successes(cx, ("scryptenc_file", "scryptdec_file_prep", "scryptdec_file_copy",
                   "scryptdec_file_printparams", "passphrase_entry_readpass"))
    core_run(cx, {"AUTH", "STREAM"})
    cx.need("successful ends", 20, "ways to exit with status 0")
    cx.need("failing ends", 60, "ways to exit with another status")


def m_bothcmp(E, st, I, a):
    s2 = fork(st)
    r = E.fresh(s2, I, "cmp", 32)
    E.assume(s2, T.mkcmp("ne", r, C(0, 32)), 1)
    return [Outcome(st, C(0, 32), "eq"), Outcome(s2, r, "ne")]


class NoOutput(Monitor):
    """preparing a decryption writes nothing and opens nothing"""

    def pre(self, E, st, I, fn, args):
        if fn in FORBIDDEN or fn in ("fopen", "fopen64", "open", "open64", "fwrite", "fputs",
                                     "write", "putchar", "puts", "printf"):
            if fn in ("fputs", "fwrite") and self_stderr(E, st, args[-1]):
                return
            E.report(st, "ORDER", I, "%s() before the header was verified" % fn)
        if fn == "fread":
            E.cx.ob("header reads")


def self_stderr(E, st, f):
    try:
        return f == E.load(st, ("p", ("g", "stderr"), ZERO), 8)
    except Exception:
        return False


@check("P04", "path-sensitive abstract interpretation of main() with an event-order typestate",
       CLI + """On every path, opening the output for writing is preceded by a successful
       verification of the header (decryption) or a successful passphrase entry (encryption);
       no file is opened for writing in info mode, and nothing is removed, renamed or
       truncated. scryptdec_file_prep() itself is analysed too: it writes nothing, and its
       success implies that magic, checksum and signature of the header were verified.""",
       configs=("native",))
def p04(cx):
    cx.rule("ORDER: an output file is opened only after scryptdec_file_prep() (or, for "
            "encryption, the passphrase entry) succeeded")
    cx.rule("AUTH: scryptdec_file_prep() succeeds only after magic, header checksum and "
            "header signature were verified")
    cx.rule("INFO: no file is opened for writing in info mode")
    cli(cx, {"ORDER", "INFO"}, SINGLE)
    core_run(cx, {"AUTH", "HEADER"}, fenc=False, benc=False, bdec=False)
    cx.run("scryptdec_file_prep", core_models(), [NoOutput()])
    cx.need("files opened for writing", 10, "output files opened")
    cx.need("header reads", 1, "reads of the header")


# passphrase sources: what the entry method must do
def sources(cx):
    ent = entries(cx)
    names = {"tty-stdin": "dev:tty-stdin", "stdin-once": "dev:stdin-once",
             "tty-once": "dev:tty-once", "env:": "env:NAME", "file:": "file:NAME"}
    where = "passphrase_entry_parse"
    for k, n in names.items():
        cx.ob("passphrase methods")
        if k not in ent:
            cx.violation("PASS", where, "the method %s is not recognised" % n)
    vals = [v for k, v in ent.items() if k in names]
    if len(set(vals)) != len(vals):
        cx.violation("PASS", where, "two passphrase methods are not told apart")

    class Parse(Monitor):
        def post(self, E, st, I, fn, args, ret, tag):
            if tag and tag.startswith("is ") and args is not None:
                lit = tag.split(" ", 2)[2]
                st.mon["lits"] = st.mon.get("lits", ()) + (lit,)
                a = args[0] if M.cstr(E, st, args[1]) is not None else args[1]
                if fn == "strcmp":
                    if a != st.mon.get("rest"):
                        E.report(st, "PASS", I, "the device is not taken from what follows "
                                 "the ':'")
                elif a != ("p", ("arg", 0), ZERO) or \
                        E.constval(st, args[2]) != len(lit):
                    E.report(st, "PASS", I, "the method is compared in part or at another "
                             "place than the start")
            if fn == "strchr" and tag == "found":
                st.mon["rest"] = T.add(ret, C(1, 64), 64)

        def ret(self, E, st, val):
            if E.constval(st, val) != 0:
                return
            cx.ob("parsed passphrase methods")
            lits = set(st.mon.get("lits", ()))
            v = E.constval(st, E.load(st, ("p", ("arg", 1), ZERO), 4))
            want = [k for k, w in ent.items() if w == v]
            ok = want and (lits in ({"dev:", want[0]}, {want[0]}) and
                           (want[0].endswith(":") or "dev:" in lits))
            if not ok:
                E.report(st, "PASS", E.entry.name, "success for an argument that names no "
                         "known method, or the wrong one")
            if E.load(st, ("p", ("arg", 2), ZERO), 8) != st.mon.get("rest"):
                E.report(st, "PASS", E.entry.name, "the argument handed out is not what "
                         "follows the ':'")
    c = Cli(())
    d = M.models(M.UTIL)

    def strch(E, st, I, a):
        s2 = fork(st)
        if E.constval(st, a[1]) != ord(":"):
            E.cx.broken("the separator looked for is not ':'")
        r = T.add(a[0], E.fresh(st, I, "pos", 64), 64)
        return [Outcome(st, r, "found"), Outcome(s2, ZERO, "none")]
    d["strcmp"] = d["strncmp"] = d["strcasecmp"] = c.strcmp
    d["strchr"] = strch
    cx.run("passphrase_entry_parse", d, [Parse()], unroll=16)
    cx.need("parsed passphrase methods", 5, "successful parses")
    dispatch(cx, ent)


class Dispatch(Monitor):
    def __init__(self, key, once):
        self.key, self.once = key, once

    def pre(self, E, st, I, fn, a):
        if fn == "getenv" and a[0] == ("p", ("arg", 2), ZERO):
            st.mon["env"] = True

    def post(self, E, st, I, fn, a, ret, tag):
        if a is None:
            return
        if fn == "getenv" and st.mon.get("env") and ret != ZERO:
            st.x["envval"] = ret
        good = None
        if fn == "readpass":
            dv = E.constval(st, a[3])
            want = {"tty-stdin": 1, "stdin-once": 0, "tty-once": 2}.get(self.key)
            conf = self.key == "tty-stdin" and not self.once
            good = want is not None and dv == want and a[0] == ("p", ("arg", 0), ZERO) and \
                a[1] == ("p", ("arg", 3), ZERO) and \
                a[2] == (("p", ("arg", 4), ZERO) if conf else ZERO)
        elif fn == "readpass_file":
            good = self.key == "file:" and a[1] == ("p", ("arg", 2), ZERO) and \
                a[0] == ("p", ("arg", 0), ZERO)
        elif fn == "strdup" and tag == "ok":
            if self.key == "env:" and a[0] == st.x.get("envval"):
                st.x["dup"] = ret
            return
        if good is None:
            return
        E.cx.ob("passphrase sources")
        if not good:
            E.report(st, "PASS", I, "for %s%s the passphrase is read with %s(%s)" % (
                self.key, ", asking once" if self.once else "", fn,
                ", wrong source, argument or number of times"))
        elif tag == "ok":
            st.mon["read"] = True

    def ret(self, E, st, val):
        if E.constval(st, val) != 0:
            return
        if self.key == "env:":
            E.cx.ob("passphrase sources")
            if st.x.get("dup") is None or \
                    E.load(st, ("p", ("arg", 0), ZERO), 8) != st.x["dup"]:
                E.report(st, "PASS", E.entry.name, "for env: the passphrase is not a copy of "
                         "the environment variable named")
        elif not st.mon.get("read"):
            E.report(st, "PASS", E.entry.name, "success for %s without having read a "
                     "passphrase from there" % self.key)


def dispatch(cx, ent):
    P = [("p", ("arg", i), ZERO) for i in range(5)]
    for key, v in sorted(ent.items()):
        for once in (0, 1):
            cx.run("passphrase_entry_readpass", M.models(M.UTIL, M.LAYERS),
                   [Dispatch(key, once)], args=[P[0], C(v, 32), P[2], P[3], P[4],
                                                C(once, 32)])


@check("P25", "path-sensitive abstract interpretation of option handling and passphrase "
       "dispatch", CLI + """Each passphrase method named on the command line is followed to the
       call that reads the passphrase: the parse result, the dispatch and, in readpass(), the
       stream read from.""", configs=("native",))
def p25(cx):
    cx.rule("PASS: the passphrase is read from the source the options select, twice when "
            "encrypting from a terminal, and never from the stream that is also the input")
    cx.rule("SOURCE: readpass() reads from standard input, the terminal, or the terminal with "
            "standard input as fallback, as told")
    cli(cx, {"PASS"}, SINGLE + [("--passphrase", "-P"), ("-f", "-v")])
    sources(cx)
    import props.passphrase as pp
    pp.source(cx)
    cx.need("passphrases asked for", 10, "passphrase entries in main")
    cx.need("passphrase sources", 6, "dispatched reads")


@check("P26", "path-sensitive abstract interpretation of option handling in main()",
       CLI + """Where an operation is started, its parameters, files and flags are compared
       with the options, defaults and operands of the command line that led there.""",
       configs=("native",))
def p26(cx):
    cx.rule("OPTIONS: each option sets exactly its own parameter; defaults apply otherwise; "
            "invalid combinations and unknown options never reach an operation")
    cx.rule("RANGE: each numeric option accepts exactly its documented range")
    cx.rule("FILES: operands select the input and output, '-' standard input")
    cx.rule("MODE: the first argument alone selects the operation")
    cx.rule("words, bounds: getopt() and PARSENUM() behave as taken here")
    getopt.options(cx, light=True)
    numbers.enum(cx)
    cli(cx, {"OPTIONS", "RANGE", "FILES", "MODE"}, [()] + sets(cx.tier))
    for md in ("enc", "dec"):
        for o in KNOWN:
            if md == "dec" and o in ("--logN", "-r", "-p"):
                continue
            cx.ob("options that reach an operation")
            if (md, o) not in getattr(cx, "reached", ()):
                cx.violation("OPTIONS", "main.c (main)", "'%s' is never carried out with "
                             "option %s" % (md, o))
    cx.need("options followed", 500, "option values at operations")
    cx.need("operations started", 100, "operations started")


class Info(encmon.FilePrep):
    """what info mode prints"""

    def pre(self, E, st, I, fn, a):
        super().pre(E, st, I, fn, a)
        if fn in ("fprintf", "vfprintf", "printf", "puts", "putchar", "fputs", "fwrite",
                  "fputc", "write"):
            f = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "fwrite": 3}.get(fn)
            if f is None or not self_stderr(E, st, a[f]):
                E.report(st, "PRINT", I, "the parameters are not printed to standard error")
        if fn == "crypto_scrypt":
            E.report(st, "PRINT", I, "the key derivation is run to show information")
        if fn in FORBIDDEN or fn in ("fopen", "open", "fopen64", "open64"):
            E.report(st, "PRINT", I, "%s() while showing information" % fn)
        if fn == "fprintf":
            s = M.cstr(E, st, a[1])
            s = s.decode(errors="replace") if isinstance(s, bytes) else s
            if s is None:
                return
            k, pos = 2, 0
            for m in re.finditer(r"%(?:%|[-+ #0-9.]*(?:l|ll|j|z|h)*([a-zA-Z]))", s):
                if m.group(0) == "%%":
                    continue
                lab = re.findall(r"\b(N|r|p)\b", s[pos:m.start()])
                pos = m.end()
                if lab and k < len(a):
                    st.mon["shown"] = st.mon.get("shown", ()) + (("=" + lab[-1], a[k]),)
                if "memory" in s and m.group(1) == "s" and k < len(a):
                    z = st.x.get(("size", a[k]))
                    if z is not None:
                        st.mon["shown"] = st.mon.get("shown", ()) + (("=mem", z),)
                k += 1

    def post(self, E, st, I, fn, a, ret, tag):
        super().post(E, st, I, fn, a, ret, tag)
        if fn == "humansize" and tag == "ok" and a is not None:
            st.x[("size", ret)] = a[0]

    def ret(self, E, st, val):
        if E.decide(st, T.mkcmp("eq", val, C(0, 32))) != 1:
            return
        cx = E.cx
        cx.ob("successful displays")
        h = self.hdr(E, st)
        sh = {k[1:]: v for k, v in st.mon.get("shown", ())}
        if h is None or not self.magic_ok(E, st, h) or \
                E.decide(st, T.mkcmp("eq", h[6], C(0, 8))) != 1:
            E.report(st, "PRINT", E.entry.name, "success without a complete header whose magic "
                     "and version were verified")
            return
        for k in "Nrp":
            if k not in sh:
                E.report(st, "PRINT", E.entry.name, "%s is not printed" % k)
                return
        for m in fmt.check_params(E, st, h, (sh["N"], sh["r"], sh["p"])):
            E.report(st, "PRINT", E.entry.name, "not the header's parameters are printed: " +
                     m.replace("the key was derived with", "printed"))
        m = sh.get("mem")
        if m is None:
            if st.mon.get("nomem") is None:
                return
        cx.ob("memory sizes displayed")
        want = T.mul(T.mul(C(128, 64), T.zext(sh["r"], 64), 64), sh["N"], 64)
        if m != want and E.decide(st, T.mkcmp("eq", m, want)) != 1 and \
                E.constval(st, m) != (1 << 64) - 1:
            E.report(st, "PRINT", E.entry.name, "the memory shown is not 128 * N * r")


@check("P27", "path-sensitive abstract interpretation with byte-provenance comparison of what "
       "is printed", CLI + """In info mode no passphrase is asked for, nothing is derived and no
       file opened for writing; what is printed for N, r, p and memory is compared by
       provenance with the verified header.""", configs=("native",))
def p27(cx):
    cx.rule("INFO: no passphrase, no output file in info mode")
    cx.rule("PRINT: the values printed are the header's N, r, p and 128*N*r, only after magic "
            "and version were verified")
    cli(cx, {"INFO"}, SINGLE)
    before = set(cx.viols)
    cx.run("scryptdec_file_printparams", core_models(), [Info()])
    for k, v in list(cx.viols.items()):
        if k not in before and v.rule != "PRINT":
            del cx.viols[k]
    cx.need("successful displays", 1, "successful displays")
