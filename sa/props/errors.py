"""Success is only reported if everything worked; failures name their cause."""
import encmon
import models as M
import mons
import terms as T
from checklib import settled
from engine import Monitor, AnalysisBroken
from terms import C, ZERO
from . import check
from .core import ENGINE, core_models


class Success(mons.Latch):
    def __init__(self, kind, **kw):
        super().__init__(**kw)
        self.kind = kind

    def ret(self, E, st, val):
        w = T.width(val)
        f = mons.failures(st)
        if self.kind == "zero":
            ok = E.decide(st, T.mkcmp("eq", val, C(0, w))) != 0
        elif self.kind == "ptr":
            ok = E.decide(st, T.mkcmp("ne", val, C(0, w))) != 0
        else:
            ok = E.decide(st, T.mkcmp("sge", val, C(0, w))) != 0
        E.cx.ob("returning paths")
        if ok:
            E.cx.ob("successful returning paths")
        if ok and f:
            i = E.prog.inst_by_uid(f[0][2])
            E.report(st, "SUCCESS", i if i is not None else E.entry.name,
                     "%s() can report success although %s() failed here" %
                     (E.entry.name.replace("libcperciva_", ""), f[0][0]))


def tty_fopen(E, st, I, fn, args, tag):
    """opening the terminal may fail: standard input is used instead"""
    if fn == "fopen":
        s = M.cstr(E, st, args[0])
        return s == "/dev/tty"
    return False


# (function, failure encoding, models taken out, tolerated failures with their reasons)
SUCCESS = [
    ("scryptenc_file", "zero", (), {"humansize"}),
    ("scryptenc_buf", "zero", (), {"humansize"}),
    ("scryptdec_buf", "zero", (), {"humansize"}),
    ("scryptdec_file_prep", "zero", (), {"humansize"}),
    ("scryptdec_file_copy", "zero", (), {"humansize"}),
    ("scryptdec_file_printparams", "zero", (), {"humansize"}),
    ("scryptenc_cpuperf", "zero", (), set()),
    ("memtouse", "zero", (), set()),
    ("crypto_scrypt", "zero", (), set()),
    ("crypto_entropy_read", "zero", (), set()),
    ("entropy_read", "zero", (), set()),
    ("readpass", "zero", (), {"tcsetattr", "fclose"}),
    ("readpass_file", "zero", (), {"fgetc"}),
    ("passphrase_entry_readpass", "zero", (), set()),
    ("humansize", "ptr", (), set()),
    ("asprintf", "sge", (), set()),
    ("crypto_aes_key_expand", "ptr", (), set()),
    ("crypto_aesctr_alloc", "ptr", (), set()),
    ("crypto_aesctr_init", "ptr", (), set()),
    ("monoclock_get", "zero", (), {"clock_gettime"}),
    ("monoclock_getres", "zero", (), {"clock_getres"}),
]


# analysed after the self-tests of accelerated code, whose failure only disables that code
SETTLED = {"crypto_scrypt": ("crypto/crypto_scrypt.c",),
           "crypto_aes_key_expand": ("crypto/crypto_aes",),
           "crypto_aesctr_init": ("crypto/crypto_aes",)}


def successes(cx, only=None):
    for fn, kind, drop, ign in SUCCESS:
        if only is not None and fn not in only:
            continue
        if not cx.has(fn):
            if fn in ("scryptenc_file", "scryptdec_file_prep", "scryptdec_file_copy",
                      "scryptenc_buf", "scryptdec_buf"):
                raise AnalysisBroken("anchor function %s not found" % fn)
            continue
        groups = [M.CRYPTO, M.UTIL, M.CORE, M.LAYERS]
        mods = M.models(*groups, drop=(fn,) + tuple(M.SAMELAYER.get(fn, ())))
        cx.run(fn, mods, [Success(kind, ignore=ign, skip=tty_fopen)],
               setup=lambda E, st, fn=fn: settled(E, st, SETTLED.get(fn, ("?",))))


@check("P02", "path-sensitive abstract interpretation with a failure latch",
       ENGINE + """Every failing outcome of a fallible call (I/O, allocation, clock, entropy,
       key derivation) is latched; no path on which the latch is set may return the function's
       success value. The library functions are checked one by one, callers against the
       contracts of callees. Tolerated failures are listed explicitly: humansize() (only used
       for a diagnostic), the fallback from /dev/tty to standard input, restoring or closing
       the terminal, the probe for a second line in a passphrase file, and the fallback
       between clocks.""")
def p02(cx):
    cx.rule("SUCCESS: no path on which a call that the operation depends on failed returns "
            "the success value")
    successes(cx)
    cx.need("successful returning paths", 20, "successful paths of the library functions")


# -------------------------------------------------------------------------------------

OK, ELIMIT, ECLOCK, EKEY, ESALT, EOPENSSL, ENOMEM, EINVAL, EVERSION, ETOOBIG, ETOOSLOW, \
    EPASS, EWRFILE, ERDFILE, EPARAM, EBIGSLOW = range(16)
NAMES = ("SCRYPT_OK SCRYPT_ELIMIT SCRYPT_ECLOCK SCRYPT_EKEY SCRYPT_ESALT SCRYPT_EOPENSSL "
         "SCRYPT_ENOMEM SCRYPT_EINVAL SCRYPT_EVERSION SCRYPT_ETOOBIG SCRYPT_ETOOSLOW "
         "SCRYPT_EPASS SCRYPT_EWRFILE SCRYPT_ERDFILE SCRYPT_EPARAM SCRYPT_EBIGSLOW").split()

CAUSE = {
    ("crypto_entropy_read", "fail"): ESALT,
    ("crypto_scrypt", "fail"): EKEY,
    ("memtouse", "fail"): ELIMIT,
    ("scryptenc_cpuperf", "clock"): ECLOCK,
    ("scryptenc_cpuperf", "kdf"): EKEY,
    ("crypto_aes_key_expand", "fail"): EOPENSSL,
    ("crypto_aesctr_init", "fail"): ENOMEM,
    ("crypto_aesctr_alloc", "fail"): ENOMEM,
    ("malloc", "fail"): ENOMEM, ("calloc", "fail"): ENOMEM,
    ("fwrite", "fail"): EWRFILE,
    ("fread", "err"): ERDFILE,
    ("monoclock_get", "fail"): ECLOCK, ("monoclock_getres", "fail"): ECLOCK,
    ("monoclock_get_cputime", "fail"): ECLOCK,
}
DIFF = {"magic": EINVAL, "sum": EINVAL, "sig": EPASS, "final": EINVAL}


class Cause(Monitor):
    """the code returned after a failure names the step that failed; runs next to a decoder
    monitor that classifies comparisons (st.mon["diff"])"""

    def __init__(self, dec=None, nocause=(), short=None):
        self.dec = dec
        self.nocause = set(nocause)
        self.short = short

    def post(self, E, st, I, fn, a, ret, tag):
        c = None
        if (fn, tag) in CAUSE:
            c = (fn, tag)
        elif fn == "fread" and tag == "eof" and self.short is not None:
            c = ("fread", "eof")
        cur = st.mon.get("cause", ())
        if c is not None and c not in cur:
            st.mon["cause"] = cur + (c,)

    def ret(self, E, st, val):
        rc = E.constval(st, val)
        if rc == 0:
            return
        cause = st.mon.get("cause")
        diff = st.mon.get("diff")
        E.cx.ob("failing returns with a known cause" if cause or diff else
                "failing returns for invalid input or limits")
        if rc is None:
            E.report(st, "CAUSE", E.entry.name, "the error code returned is not one of the "
                     "documented constants (after %s)" % (cause or diff or "no failed call",))
            return
        if cause:
            if rc in [CAUSE.get(c, self.short) for c in cause]:
                return
            want = CAUSE.get(cause[0], self.short)
            what = "%s() failed" % cause[0][0] if cause[0][1] != "eof" else \
                "the input ended early"
        elif diff:
            want = DIFF.get(diff)
            what = {"sig": "the header signature (the passphrase check) did not match",
                    "final": "the data signature did not match",
                    "sum": "the header checksum did not match",
                    "magic": "the magic did not match"}.get(diff, "a comparison failed")
            if diff == "magic" and rc == EVERSION:
                return self.version(E, st, rc)
        else:
            if rc == EVERSION:
                return self.version(E, st, rc)
            if rc not in self.nocause:
                E.report(st, "CAUSE", E.entry.name, "%s is returned although nothing that it "
                         "stands for happened" % self.name(rc))
            elif rc == EINVAL and self.dec is not None:
                h = self.dec.hdr(E, st)
                if h is not None and self.dec.magic_ok(E, st, h) and \
                        E.decide(st, T.mkcmp("eq", h[6], C(0, 8))) == 0:
                    E.report(st, "CAUSE", E.entry.name, "an unknown format version is not "
                             "reported as such")
            return
        if want is not None and rc != want:
            E.report(st, "CAUSE", E.entry.name, "%s is returned after %s, which is %s" %
                     (self.name(rc), what, self.name(want)))

    def name(self, rc):
        return NAMES[rc] if 0 <= rc < 16 else "code %d" % rc

    def version(self, E, st, rc):
        h = self.dec.hdr7(E, st) if self.dec is not None else None
        if h is None or not self.dec.magic_ok(E, st, h) or \
                E.decide(st, T.mkcmp("eq", h[6], C(0, 8))) != 0:
            E.report(st, "CAUSE", E.entry.name, "an unknown format version is reported "
                     "although the version byte is not known to differ")


# words of which one must occur in the message that is printed for a code
WORDS = {
    ELIMIT: ("memory",), ECLOCK: ("clock", "time"), EKEY: ("key",), ESALT: ("salt", "random"),
    EOPENSSL: ("openssl", "aes", "cipher"), ENOMEM: ("memory",),
    EINVAL: ("valid", "corrupt"), EVERSION: ("version",), ETOOBIG: ("memory",),
    ETOOSLOW: ("time", "slow"), EBIGSLOW: ("memory",), EPASS: ("passphrase", "password"),
    EWRFILE: ("writ", "output"), ERDFILE: ("read", "input"), EPARAM: ("param",),
}


class Messages(Monitor):
    def pre(self, E, st, I, fn, a):
        if fn in ("warn", "warnx", "warn0", "warnp", "warnc", "fprintf", "fputs"):
            k = 1 if fn == "fprintf" else 0
            if fn in ("warn", "warnx", "warn0", "warnp") and a:
                s = M.cstr(E, st, a[0])
            else:
                s = M.cstr(E, st, a[k] if fn == "fprintf" else a[0])
            E.cx.msgs.append((E.constval(st, ("s", ("arg", 0), 32)), (fn, s)))


@check("P05", "path-sensitive abstract interpretation relating returned error codes to the "
       "failed call or comparison",
       ENGINE + """Each fallible step is tied to its documented error code; on every failing
       path of the encryption and decryption entry points the code returned must be that of
       the first step that failed. The function that prints errors must have a distinct,
       appropriate message for every code.""")
def p05(cx):
    cx.rule("CAUSE: the code returned on a failing path is the documented one for the first "
            "failed step of that path")
    cx.rule("MESSAGE: every code has its own message about its cause")
    before = set(cx.viols)
    cx.run("scryptenc_file", core_models(),
           [Cause(nocause={ETOOBIG, ETOOSLOW, EBIGSLOW, EPARAM})])
    cx.run("scryptenc_buf", core_models(),
           [Cause(nocause={ETOOBIG, ETOOSLOW, EBIGSLOW, EPARAM})])
    m = encmon.BufDec()
    cx.run("scryptdec_buf", core_models(),
           [m, Cause(dec=m, nocause={EINVAL, ETOOBIG, ETOOSLOW, EBIGSLOW})])
    m = encmon.FilePrep()
    cx.cookie = None
    cx.run("scryptdec_file_prep", core_models(),
           [m, Cause(dec=m, nocause={EINVAL, ETOOBIG, ETOOSLOW, EBIGSLOW}, short=EINVAL)])
    if cx.cookie:
        m = encmon.FileCopy(cx.cookie)
        cx.run("scryptdec_file_copy", core_models(),
               [m, Cause(dec=None, nocause={EINVAL})], setup=m.setup)
    m = encmon.FilePrep()
    m.ret = lambda E, st, val: None
    cx.run("scryptdec_file_printparams", core_models(),
           [m, Cause(dec=m, nocause={EINVAL}, short=EINVAL)])
    for k, v in list(cx.viols.items()):
        if k not in before and v.rule != "CAUSE":
            del cx.viols[k]
    cx.msgs = []
    cx.run("scryptenc_print_error", core_models(), [Messages()])
    table = {}
    for rc, m in cx.msgs:
        if rc is not None:
            table.setdefault(rc, set()).add(m)
    fn = "scryptenc_print_error"
    for rc in range(1, 16):
        cx.ob("error messages")
        ms = table.get(rc)
        if not ms:
            cx.violation("MESSAGE", fn, "there is no message of its own for %s" % NAMES[rc])
            continue
        text = " ".join(s or "" for _, s in ms).lower()
        if not any(w in text for w in WORDS[rc]):
            cx.violation("MESSAGE", fn, "the message for %s does not say so: %r" %
                         (NAMES[rc], text[:80]))
        for r2 in range(1, rc):
            if table.get(r2) and table[r2] & ms:
                cx.violation("MESSAGE", fn, "%s and %s have the same message" %
                             (NAMES[r2], NAMES[rc]))
    cx.need("failing returns with a known cause", 30, "failing paths")
    cx.need("error messages", 15, "messages")
