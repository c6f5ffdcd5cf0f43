"""Reading passphrases: terminal state, signals, fidelity, source."""
import models as M
import terms as T
from engine import Monitor
from models import Outcome, fork
from terms import C, ZERO
from . import check
from .core import ENGINE

SASZ, TIOSZ, LFLAG, ECHO = 152, 60, 12, 8
SIGNALS = {"SIGHUP": 1, "SIGINT": 2, "SIGQUIT": 3, "SIGPIPE": 13, "SIGALRM": 14,
           "SIGTERM": 15, "SIGTSTP": 20, "SIGTTIN": 21, "SIGTTOU": 22}
SIGNAME = {v: k for k, v in SIGNALS.items()}
P = [("p", ("arg", i), ZERO) for i in range(6)]


def saword(sig, k):
    return ("s", ("oldsa", sig, k), 64)


def tioword(k):
    return ("s", ("tios", k), 32)


def fill(E, st, p, words, n):
    for k, w in enumerate(words):
        E.store(st, T.add(p, C(n * k, 64), 64), n, w)


def holds(E, st, p, words, n):
    return all(E.load(st, T.add(p, C(n * k, 64), 64), n) == w for k, w in enumerate(words))


def m_sigaction(E, st, I, a):
    sig = E.constval(st, a[0])
    if sig is None:
        E.cx.broken("sigaction() on a computed signal number")
    for m in E.monitors:
        if E.toptr(a[1]) != ZERO and a[1][0] == "p":
            m.access(E, st, I, E.toptr(a[1]), SASZ, "load")
    what = ""
    if a[1] != ZERO:
        if holds(E, st, a[1], [saword(sig, k) for k in range(SASZ // 8)], 8):
            what = "restore"
        else:
            what = "install"
            h = E.load(st, a[1], 8)
            if h[0] == "f":
                st.x[("handler", sig)] = h
                E.cx.handlers.add(h[1])
            else:
                what = "other"
    if a[2] != ZERO:
        if what == "install" or what == "":
            fill(E, st, a[2], [saword(sig, k) for k in range(SASZ // 8)], 8)
            st.x[("saved", sig)] = 1
        else:
            E.havoc_range(st, a[2], SASZ, I, "oldsa")
    return Outcome(st, C(0, 32), "%s %d" % (what, sig))


def m_tcgetattr(E, st, I, a):
    s2 = fork(st)
    fill(E, st, a[1], [tioword(k) for k in range(TIOSZ // 4)], 4)
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, C(-1, 32), "fail")]


def m_fileno(E, st, I, a):
    f = fdof(E, st, a[0])
    if f is None:
        f = E.fresh(st, I, "fd", 32)
        st.x[("fd", a[0])] = f
    return Outcome(st, f, "any")


def fdof(E, st, f):
    """the descriptor of a stream, if it was asked for"""
    return C(0, 32) if std(E, st, f, "stdin") else st.x.get(("fd", f))


def m_tcsetattr(E, st, I, a):
    ws = [tioword(k) for k in range(TIOSZ // 4)]
    if holds(E, st, a[2], ws, 4):
        w = "restore"
    else:
        l = E.load(st, T.add(a[2], C(LFLAG, 64), 64), 4)
        off = E.decide(st, T.mkcmp("eq", T.binop("and", l, C(ECHO, 32), 32), C(0, 32))) \
            if hasattr(T, "binop") else None
        if off is None:
            off = zerobit(E, st, l, ECHO)
        same = all(E.load(st, T.add(a[2], C(4 * k, 64), 64), 4) == tioword(k)
                   for k in range(TIOSZ // 4) if 4 * k != LFLAG)
        w = "noecho" if off == 1 and same else "change"
    s2 = fork(st)
    return [Outcome(st, C(0, 32), w + " ok"), Outcome(s2, C(-1, 32), w + " fail")]


def zerobit(E, st, t, bit):
    """1 when the bit is certainly clear in t"""
    if t[0] == "c":
        return 1 if not t[1] & bit else 0
    if t[0] == "o" and t[1] == "and":
        return 1 if any(x[0] == "c" and not x[1] & bit for x in t[3]) or \
            any(zerobit(E, st, x, bit) == 1 for x in t[3]) else None
    if t[0] == "o" and t[1] in ("or", "xor"):
        return 1 if all(zerobit(E, st, x, bit) == 1 for x in t[3]) else None
    if t[0] == "o" and t[1] in ("zext", "sext", "trunc"):
        return zerobit(E, st, t[3][0], bit)
    return None


def m_isatty(E, st, I, a):
    s2 = fork(st)
    return [Outcome(st, C(1, 32), "yes"), Outcome(s2, C(0, 32), "no")]


def m_fopen(E, st, I, a):
    o = M.m_fopen(E, st, I, a)
    s = M.cstr(E, st, a[0])
    s = s.decode(errors="replace") if isinstance(s, bytes) else s
    st.x[("path", o[0].ret)] = s if s is not None else a[0]
    return o


def m_strcmp(E, st, I, a):
    s2 = fork(st)
    r = E.fresh(s2, I, "cmp", 32)
    E.assume(s2, T.mkcmp("ne", r, C(0, 32)), 1)
    return [Outcome(st, C(0, 32), "eq"), Outcome(s2, r, "ne")]


def m_sigset(E, st, I, a):
    E.havoc_range(st, a[0], 128, I, "set")
    return Outcome(st, C(0, 32), "ok")


def pmodels():
    d = M.models(M.UTIL)
    d.update({k: m_sigset for k in ("sigemptyset", "sigfillset", "sigaddset", "sigdelset")})
    d.update({"sigaction": m_sigaction, "tcgetattr": m_tcgetattr, "tcsetattr": m_tcsetattr,
              "isatty": m_isatty, "fileno": m_fileno, "fopen": m_fopen, "fopen64": m_fopen, "strcmp": m_strcmp,
              "strncmp": m_strcmp})
    return d


def std(E, st, f, name):
    return f == E.load(st, ("p", ("g", name), ZERO), 8)


class Read(Monitor):
    """everything about one call of readpass() or readpass_file()"""

    def __init__(self, rules, tracked=None, flags=None, confirm=None, dev=None, path=False,
                 others=0):
        self.others = others
        self.rules = set(rules)
        self.tracked = tracked
        self.flags = flags
        self.confirm = confirm
        self.dev = dev
        self.path = path

    def rep(self, E, st, rule, I, msg):
        if rule in self.rules:
            E.report(st, rule, I, msg)

    def stream(self, E, st, f):
        if std(E, st, f, "stdin"):
            return "stdin"
        return st.x.get(("path", f), "?")

    def pre(self, E, st, I, fn, a):
        cx = E.cx
        if fn in ("fgets", "fread", "getline", "fgetc", "getc", "read", "getchar"):
            s = self.stream(E, st, a[2] if fn in ("fgets", "getline") else
                            a[3] if fn == "fread" else a[0]) if a else "?"
            cx.ob("passphrase reads")
            if self.dev is not None:
                tty = s == "/dev/tty"
                ok = {0: s == "stdin", 2: tty,
                      1: tty or s == "stdin" and st.mon.get("notty")}[self.dev]
                if not ok:
                    self.rep(E, st, "SOURCE", I, "the passphrase is read from %s when told to "
                             "use %s" % (s if isinstance(s, str) else "a file",
                                         ("standard input",
                                          "the terminal if there is one",
                                          "the terminal only")[self.dev]))
            if self.path and s != P[1]:
                self.rep(E, st, "SOURCE", I, "the passphrase is not read from the file named")
            if st.mon.get("tty") == "yes" and not st.mon.get("noecho"):
                self.rep(E, st, "ECHO", I, "the passphrase is read from a terminal with echo "
                         "on")
            f = a[2] if fn in ("fgets", "getline") else a[3] if fn == "fread" else a[0]
            if (st.mon.get("tty") is None or fn != "read" and
                    st.x.get("ttyfd") != fdof(E, st, f)) and not self.path:
                self.rep(E, st, "ECHO", I, "the passphrase is read without finding out "
                         "whether the stream is a terminal")
        if fn == "fclose" and st.mon.get("noecho") and \
                fdof(E, st, a[0]) == st.x.get("ttyfd"):
            self.rep(E, st, "ECHO", I, "the terminal is closed while its echo is off")
        if fn == "fgets":
            n = E.constval(st, a[1])
            if n is not None and (n < 2048 or self.path and n != 2048):
                self.rep(E, st, "FIDELITY", I, "passphrases are cut to %d characters" %
                         (n - 1))

    def post(self, E, st, I, fn, a, ret, tag):
        if a is None:
            return
        cx = E.cx
        if fn in ("fopen", "fopen64") and tag == "fail":
            st.mon["notty"] = True
        if fn == "isatty":
            st.mon["tty"] = tag
            st.x["ttyfd"] = a[0]
        if fn == "sigaction":
            w, sig = tag.split()
            sig = int(sig)
            cur = st.mon.get("sigs", ())
            if w == "install":
                cx.ob("signals caught")
                if sig not in cur:
                    st.mon["sigs"] = tuple(sorted(cur + (sig,)))
                if ("saved", sig) not in st.x:
                    self.rep(E, st, "SIGNAL", I, "the old disposition of %s is not saved" %
                             SIGNAME.get(sig, sig))
                if sig == self.tracked and self.flags is not None:
                    f = E.load(st, T.add(self.flags[0], C(self.flags[1] * sig, 64), 64),
                               self.flags[1])
                    if E.constval(st, f) != 0:
                        self.rep(E, st, "SIGNAL", I, "the record of received signals is not "
                                 "cleared before signals are caught")
            elif w == "restore":
                cx.ob("signals restored")
                st.mon["sigs"] = tuple(x for x in cur if x != sig)
                if st.mon.get("noecho"):
                    self.rep(E, st, "SIGNAL", I, "the disposition of %s is restored while the "
                             "terminal's echo is off" % SIGNAME.get(sig, sig))
                if sig == self.tracked:
                    st.mon["back"] = True
            elif w == "other":
                self.rep(E, st, "SIGNAL", I, "the disposition of %s is changed to something "
                         "else than a handler or its saved value" % SIGNAME.get(sig, sig))
        if fn == "tcsetattr":
            w, res = tag.split()
            if a[0] != st.x.get("ttyfd"):
                self.rep(E, st, "ECHO", I, "the settings of another descriptor than that of the "
                         "terminal are changed")
            elif w == "restore":
                cx.ob("terminal settings restored")
                st.mon["noecho"] = False
            else:
                if w == "change":
                    self.rep(E, st, "ECHO", I, "the terminal is set to something which is not "
                             "its old state with echo off")
                if res == "ok":
                    cx.ob("echo turned off")
                    st.mon["noecho"] = True
                    missing = [n for n, s in SIGNALS.items()
                               if s not in st.mon.get("sigs", ())]
                    if missing:
                        self.rep(E, st, "SIGNAL", I, "echo is turned off while %s is not "
                                 "caught" % ", ".join(sorted(missing)))
        if fn in ("raise", "kill", "pthread_kill"):
            s = E.constval(st, a[-1])
            if self.tracked is not None and s == self.tracked:
                if not st.mon.get("back"):
                    self.rep(E, st, "SIGNAL", I, "%s is raised before its disposition is "
                             "restored" % SIGNAME[s])
                st.mon["raised"] = True
        if fn == "fgets":
            b = E.toptr(a[0])
            if tag in ("line", "eof"):
                rd = tuple(x for x in st.mon.get("rd", ()) if x[0] != b)
                st.mon["rd"] = rd + ((b, tag),)
                st.mon["same"] = False
                st.mon["cut"] = False
                st.mon["nread"] = min(2, st.mon.get("nread", 0) + 1)
        if fn in ("strcmp", "strncmp") and tag == "eq":
            bs = {x[0] for x in st.mon.get("rd", ())}
            if E.toptr(a[0]) in bs and E.toptr(a[1]) in bs and a[0] != a[1] and fn == "strcmp":
                st.mon["same"] = True
        if fn == "strcspn" and E.toptr(a[0]) in {x[0] for x in st.mon.get("rd", ())}:
            s = M.cstr(E, st, a[1])
            s = s.decode() if isinstance(s, bytes) else s
            if s is not None and set(s) != {"\r", "\n"}:
                self.rep(E, st, "FIDELITY", I, "the passphrase is cut at characters other than "
                         "the end of the line")
            st.x["eol"] = (E.toptr(a[0]), ret)
        if fn in ("fgetc", "getc"):
            st.mon["more"] = "end" if E.constval(st, ret) == 0xffffffff else "data"
        if fn in ("strdup", "strndup") and tag == "ok":
            b = E.toptr(a[0])
            if b not in {x[0] for x in st.mon.get("rd", ())}:
                self.rep(E, st, "FIDELITY", I, "what is returned is not a copy of what was "
                         "read")
            elif not st.mon.get("cut"):
                self.rep(E, st, "FIDELITY", I, "the end of the line is not removed from the "
                         "passphrase")
            st.x["dup"] = ret

    def store(self, E, st, I, ptr, n, val):
        p = E.toptr(ptr)
        for b, how in st.mon.get("rd", ()):
            if p[1] != b[1]:
                continue
            if E.constval(st, val) != 0 or n != 1:
                self.rep(E, st, "FIDELITY", I, "the passphrase read is altered")
                return
            e = st.x.get("eol")
            if e is not None and e[0] == b and E.constval(st, p[2]) is None and \
                    T.add(b, e[1], 64) != p:
                self.rep(E, st, "FIDELITY", I, "the passphrase is cut at a place other than "
                         "the end of the line")
                return
            if how != "eof" and E.constval(st, p[2]) is not None:
                self.rep(E, st, "FIDELITY", I, "the passphrase is cut at a fixed place")
                return
            st.mon["cut"] = True

    def ret(self, E, st, val):
        cx = E.cx
        w = E.entry.name
        left = st.mon.get("sigs", ())
        cx.ob("returning paths")
        if left:
            self.rep(E, st, "SIGNAL", w, "returns without restoring the disposition of %s" %
                     ", ".join(SIGNAME.get(s, str(s)) for s in left))
        if st.mon.get("noecho"):
            self.rep(E, st, "ECHO", w, "returns with the terminal's echo off")
        if self.tracked is not None and st.mon.get("back"):
            f = st.x.get("flag")
            cx.ob("pending signals examined")
            if f is None or not st.mon.get("looked"):
                self.rep(E, st, "SIGNAL", w, "a %s received meanwhile is lost" %
                         SIGNAME[self.tracked])
            else:
                d = E.decide(st, T.mkcmp("ne", f, C(0, T.width(f))))
                if d != 0 and not st.mon.get("raised"):
                    self.rep(E, st, "SIGNAL", w, "a %s received meanwhile is not raised "
                             "again" % SIGNAME[self.tracked])
                if d == 0 and st.mon.get("raised"):
                    self.rep(E, st, "SIGNAL", w, "%s is raised though it was not received" %
                             SIGNAME[self.tracked])
        if E.constval(st, val) != 0:
            return
        cx.ob("successful returns")
        out = E.load(st, P[0], 8)
        if not st.mon.get("rd"):
            self.rep(E, st, "FIDELITY", w, "success without having read a passphrase")
        elif st.x.get("dup") is not None and out != st.x["dup"] or \
                out[0] != "p" or out[1][0] == "al":
            self.rep(E, st, "FIDELITY", w, "what is handed out is not the copy of the "
                     "passphrase read")
        if self.confirm == 1 and (not st.mon.get("same") or st.mon.get("nread", 0) < 2):
            self.rep(E, st, "FIDELITY", w, "success though the passphrase was not entered "
                     "twice, with both entries equal")
        if self.confirm == 0 and st.mon.get("nread", 0) > 1:
            self.rep(E, st, "FIDELITY", w, "the passphrase is asked for twice though no "
                     "confirmation is wanted")
        if self.path and st.mon.get("more") != "end":
            self.rep(E, st, "FIDELITY", w, "a passphrase file that is too long or has a second "
                     "line is accepted")


def volatile(mon):
    def load(E, st, I, p):
        """reading the record of received signals, which the handler may have changed"""
        f = mon.flags
        if f is None or p[1] != f[0][1]:
            return None
        off = E.constval(st, T.sub(p[2], f[0][2], 64)) if hasattr(T, "sub") else \
            E.constval(st, T.add(p[2], T.mul(f[0][2], C(-1, 64), 64), 64))
        if off is None:
            E.cx.broken("received signals are looked up at a computed place")
        if off // f[1] != mon.tracked:
            return C(mon.others, I.ty.bits)
        s = ("s", ("gotsig", mon.tracked), I.ty.bits)
        st.x["flag"] = s
        if st.mon.get("back"):
            st.mon["looked"] = True
        return s
    return load


def runs(cx, rules, fn="readpass", **kw):
    """the variants of one function: source, confirmation"""
    m = Read(rules, **kw)
    d = pmodels()
    if m.tracked is not None:
        d["volatile_load"] = volatile(m)
    args = [P[0], P[1], P[2] if m.confirm else ZERO, C(m.dev or 0, 32)] \
        if fn == "readpass" else [P[0], P[1]]
    cx.run(fn, d, [m], args=args, unroll=40 if m.tracked is not None else 0)


def handlers(cx):
    """what the signal handler records: (flag array, element size)"""
    cx.handlers = set()
    runs(cx, (), dev=1, confirm=0)
    if not cx.handlers:
        return None
    found = []

    class H(Monitor):
        def pre(self, E, st, I, fn, a):
            if not fn.startswith("llvm."):
                E.report(st, "SIGNAL", I, "the signal handler calls %s()" % fn)

        def store(self, E, st, I, ptr, n, val):
            p = E.toptr(ptr)
            if p[1][0] == "g":
                found.append((p, n, E.constval(st, val), I))
                st.mon["set"] = True

        def ret(self, E, st, val):
            if not st.mon.get("set"):
                E.report(st, "SIGNAL", E.entry.name, "the signal handler can return without "
                         "recording the signal")
    res = None
    for k in sorted(cx.handlers):
        f = next((g for g in cx.prog().allfuncs if g.key == k), None)
        if f is None:
            cx.broken("signal handler not found")
        cx.run(f, M.models(M.UTIL), [H()])
        cx.ob("signal handlers analysed")
    for p, n, v, I in found:
        if v is None or v == 0:
            cx.violation("SIGNAL", I, "the signal handler records nothing")
            continue
        o = p[2]
        want = T.mul(T.sext(("s", ("arg", 0), 32), 64), C(n, 64), 64)
        base = T.add(o, T.mul(want, C(-1, 64), 64), 64)
        if base[0] != "c":
            cx.violation("SIGNAL", I, "the signal handler records the signal at a place that "
                         "is not its number's")
            continue
        res = (("p", p[1], base), n)
    return res


def source(cx):
    cx.handlers = set()
    for dev in (0, 1, 2):
        runs(cx, {"SOURCE"}, dev=dev, confirm=0)
        runs(cx, {"SOURCE"}, dev=dev, confirm=1)
    runs(cx, {"SOURCE"}, fn="readpass_file", path=True)
    cx.need("passphrase reads", 6, "reads of a passphrase")


@check("P23", "path-sensitive abstract interpretation with terminal and signal-disposition "
       "typestates", ENGINE + """Every return of readpass() is reached with the terminal
       settings saved before and every signal disposition restored, in that order; echo is off
       for every read from a terminal; each of the nine signals is caught before echo is turned
       off; and for each signal, alone or along with all the others, one recorded by the
       handler at any moment is raised again after the restoration, and only then. The
       settings changed are those of the stream that is read.""", configs=("native",))
def p23(cx):
    cx.rule("ECHO: echo is off while reading from a terminal and restored on every return")
    cx.rule("SIGNAL: dispositions are saved, restored after the echo, and a signal received "
            "meanwhile is raised again")
    cx.handlers = set()
    before = set(cx.viols)
    fl = handlers(cx)
    for dev in (0, 1, 2):
        for conf in (0, 1):
            runs(cx, {"ECHO", "SIGNAL"}, dev=dev, confirm=conf)
    if fl is not None:
        for sig in sorted(SIGNAME):
            for others in (0, 1):
                runs(cx, {"SIGNAL"}, dev=1, confirm=1, tracked=sig, flags=fl, others=others)
    elif set(cx.viols) == before:
        cx.broken("where received signals are recorded is not recognised")
    cx.need("echo turned off", 2, "places where echo is turned off")
    cx.need("signals caught", 9, "signals caught")
    cx.need("pending signals examined", 9, "returns after catching each signal")


@check("P24", "path-sensitive abstract interpretation tracking the passphrase from its source "
       "to the key derivation", ENGINE + """What readpass() and readpass_file() hand out is
       followed back to the line read: a copy of that buffer, unaltered but for cutting it at
       the end of the line; confirmation implies two reads compared equal; main() hands over
       that string with its full length.""", configs=("native",))
def p24(cx):
    from . import cli
    cx.rule("FIDELITY: the passphrase used is the line read without its line end, all of it, "
            "confirmed if asked for; passphrase files with more than one line are refused")
    cx.rule("WHOLE: main() gives the operation the passphrase it obtained, with its length")
    cx.handlers = set()
    for dev in (0, 1, 2):
        for conf in (0, 1):
            runs(cx, {"FIDELITY"}, dev=dev, confirm=conf)
    runs(cx, {"FIDELITY"}, fn="readpass_file", path=True)
    cli.cli(cx, {"WHOLE"}, [(), ("-P",), ("--passphrase",)])
    cli.sources(cx)
    cx.need("successful returns", 4, "successful reads of a passphrase")
    cx.need("passphrases handed over", 4, "passphrases given to operations")
