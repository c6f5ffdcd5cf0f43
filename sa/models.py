"""Contracts of library functions, and of repository functions when a client
analyses their callers (each repository contract is itself the subject of a
check on its body)."""
import terms as T
from terms import C, ZERO
from engine import Outcome, Obj, default_external

NEG1_32 = C(-1, 32)


def fork(st):
    return st.copy()


def heap(E, st, I, size, base, tag="h"):
    o = ("h", st.top.ctx, I.uid, tag)
    if o in st.alive:
        E.claim(st, o)
    st.alive.add(o)
    st.mem[o] = Obj(size, base)
    return ("p", o, ZERO)


def cint(E, st, t):
    return E.constval(st, t)


# ---- libc: memory ------------------------------------------------------------

def m_malloc(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, cint(E, st, a[0]), ("undef",))
    return [Outcome(st, p, "ok"), Outcome(s2, ZERO, "fail")]


def m_calloc(E, st, I, a):
    s2 = fork(st)
    n, m = cint(E, st, a[0]), cint(E, st, a[1])
    p = heap(E, st, I, n * m if n is not None and m is not None else None, ("zero",))
    return [Outcome(st, p, "ok"), Outcome(s2, ZERO, "fail")]


def m_realloc(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, cint(E, st, a[1]), ("undef",))
    return [Outcome(st, p, "ok"), Outcome(s2, ZERO, "fail")]


def m_memalign(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, cint(E, st, a[2]), ("undef",))
    E.store(st, a[0], 8, p, I)
    r = E.fresh(s2, I, "err", 32)
    E.assume(s2, T.mkcmp("sgt", r, C(0, 32)), 1)
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, r, "fail")]


def m_mmap(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, cint(E, st, a[1]), ("zero",), "map")
    return [Outcome(st, p, "ok"), Outcome(s2, C(-1, 64), "fail")]


def m_int_okfail(okv=0, tag=("ok", "fail")):
    def f(E, st, I, a):
        s2 = fork(st)
        return [Outcome(st, C(okv, I.ty.bits), tag[0]),
                Outcome(s2, C(-1, I.ty.bits), tag[1])]
    return f


def m_void(E, st, I, a):
    return Outcome(st)


def m_strdup(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, None, ("init", ("h", st.top.ctx, I.uid, "h")))
    st.x[("strof", p)] = a[0]
    return [Outcome(st, p, "ok"), Outcome(s2, ZERO, "fail")]


def m_memcpy(E, st, I, a):
    n = cint(E, st, a[2])
    E.memcpy(st, a[0], a[1], n if n is not None else a[2], I)
    return Outcome(st, a[0])


def m_memset(E, st, I, a):
    n = cint(E, st, a[2])
    p = E.toptr(a[0])
    off = cint(E, st, p[2])
    for m in E.monitors:
        m.access(E, st, I, p, n if n is not None else ("len", a[2]), "store")
    if n is not None and off is not None and p[1] != ("wild",):
        b = cint(E, st, T.trunc(a[1], 8) if T.width(a[1]) > 8 else a[1])
        if n == 0:
            return Outcome(st, a[0])
        if b == 0:
            v = C(0, 8 * n)
        elif b is not None and n <= 64:
            v = C(int.from_bytes(bytes([b]) * n, "little"), 8 * n)
        else:
            v = E.fresh_blob(st, I, "set", n)
        st.mem[p[1]] = E.obj(st, p[1]).write(off, n, v)
    elif p[1] != ("wild",):
        E.havoc_from(st, p, I, "set", a[2])
    return Outcome(st, a[0])


def m_memzero(E, st, I, a):
    """insecure_memzero(p, n)"""
    n = cint(E, st, a[1])
    p = E.toptr(a[0])
    off = cint(E, st, p[2])
    for m in E.monitors:
        m.access(E, st, I, p, n if n is not None else ("len", a[1]), "store")
    if p[1] == ("wild",):
        return Outcome(st)
    if n is not None and off is not None:
        if n:
            st.mem[p[1]] = E.obj(st, p[1]).write(off, n, C(0, 8 * n))
    else:
        E.havoc_from(st, p, I, "zero", a[1])
    return Outcome(st)


def verterm(E, st, p):
    p = E.toptr(p)
    ob = E.obj(st, p[1]) if p[1] != ("wild",) else None
    return ("s", ("ver", hash(ob) & 0xffffffffffff), 8)


def m_strlen(E, st, I, a):
    p = E.toptr(a[0])
    if p[1] == ("wild",):
        return Outcome(st, E.fresh(st, I, "len", 64))
    # constant strings
    s = cstr(E, st, a[0])
    if s is not None:
        return Outcome(st, C(len(s), 64))
    t = ("o", "strlen", 64, (p, verterm(E, st, p)))
    E.assume(st, T.mkcmp("ult", t, C(1 << 62, 64)), 1)
    return Outcome(st, t)


def cstr(E, st, p):
    """constant C string at p, if known"""
    p = E.toptr(p)
    if p[1][0] != "g":
        return None
    g = E.gmap.get(p[1][1])
    off = E.constval(st, p[2])
    if g is None or not g.const or off is None or g.init is None:
        return None
    if g.init[0] == "str":
        b = g.init[1][off:]
    elif g.init[0] == "zero":
        b = b"\0"
    else:
        return None
    i = b.find(b"\0")
    return None if i < 0 else b[:i].decode("latin1")


def m_memcmp(E, st, I, a):
    n = cint(E, st, a[2])
    if n is not None and n <= 4096:
        x, y = E.content(st, a[0], n), E.content(st, a[1], n)
        if x is not None and x == y and not any(T.has_top(v) for _, v in x):
            return Outcome(st, C(0, 32), "equal")
    s2 = fork(st)
    r = E.fresh(s2, I, "neq", 32)
    E.assume(s2, T.mkcmp("ne", r, C(0, 32)), 1)
    return [Outcome(st, C(0, 32), "equal"), Outcome(s2, r, "differ")]


def m_cmp(E, st, I, a):
    r = E.fresh(st, I, "cmp", 32)
    return Outcome(st, r, "any")


def m_any(E, st, I, a):
    if I.ty.kind == "void":
        return Outcome(st)
    return Outcome(st, E.fresh(st, I, "r", I.ty.bits), "any")


def m_noreturn(E, st, I, a):
    return None


def m_exit(E, st, I, a):
    for m in E.monitors:
        m.exit(E, st, a[0], I)
    return None


def m_errno(E, st, I, a):
    return Outcome(st, ("p", ("g", "errno"), ZERO))


# ---- libc: stdio ---------------------------------------------------------------

def fkey(E, F):
    return E.toptr(F)


def m_fopen(E, st, I, a):
    s2 = fork(st)
    o = ("file", st.top.ctx, I.uid)
    if o in st.alive:
        E.claim(st, o)
    st.alive.add(o)
    st.mem[o] = Obj(None, ("init", o))
    return [Outcome(st, ("p", o, ZERO), "ok"), Outcome(s2, ZERO, "fail")]


def m_fread(E, st, I, a):
    ptr, size, n, F = a
    F = fkey(E, F)
    sz, cnt = cint(E, st, size), cint(E, st, n)
    total = sz * cnt if sz is not None and cnt is not None else None
    for m in E.monitors:
        m.access(E, st, I, E.toptr(ptr), total if total is not None else
                 ("len", T.mul(size, n, 64)), "store")
    outs = []
    seof, serr = fork(st), fork(st)
    E.havoc_range(st, ptr, total, I, "rd")
    outs.append(Outcome(st, n, "full"))
    for s, tag in ((seof, "eof"), (serr, "err")):
        E.havoc_range(s, ptr, total, I, "rds")
        if cnt == 1:
            r = C(0, 64)
        else:
            r = E.fresh(s, I, "n", 64)
            if not E.assume(s, T.mkcmp("ult", r, n), 1):
                continue
        s.x[("feof" if tag == "eof" else "ferr", F)] = 1
        outs.append(Outcome(s, r, tag))
    return outs


def m_fwrite(E, st, I, a):
    ptr, size, n, F = a
    s2 = fork(st)
    cnt = cint(E, st, n)
    sz = cint(E, st, size)
    total = sz * cnt if sz is not None and cnt is not None else None
    for m in E.monitors:
        m.access(E, st, I, E.toptr(ptr), total if total is not None else
                 ("len", T.mul(size, n, 64)), "load")
    if cnt == 1:
        r = C(0, 64)
    else:
        r = E.fresh(s2, I, "n", 64)
        if not E.assume(s2, T.mkcmp("ult", r, n), 1):
            return [Outcome(st, n, "ok")]
    s2.x[("ferr", fkey(E, F))] = 1
    return [Outcome(st, n, "ok"), Outcome(s2, r, "fail")]


def m_ferror(E, st, I, a):
    if st.x.get(("ferr", fkey(E, a[0]))):
        r = E.fresh(st, I, "fe", 32)
        E.assume(st, T.mkcmp("ne", r, C(0, 32)), 1)
        return Outcome(st, r, "err")
    return Outcome(st, C(0, 32), "noerr")


def m_feof(E, st, I, a):
    if st.x.get(("feof", fkey(E, a[0]))):
        return Outcome(st, C(1, 32), "eof")
    return Outcome(st, C(0, 32), "noeof")


def m_clearerr(E, st, I, a):
    st.x.pop(("ferr", fkey(E, a[0])), None)
    st.x.pop(("feof", fkey(E, a[0])), None)
    return Outcome(st)


def m_fgets(E, st, I, a):
    ptr, n, F = a
    F = fkey(E, F)
    total = cint(E, st, n)
    seof, serr = fork(st), fork(st)
    E.havoc_range(st, ptr, total, I, "gets")
    for m in E.monitors:
        m.access(E, st, I, E.toptr(ptr), total if total is not None else
                 ("len", T.zext(n, 64)), "store")
    seof.x[("feof", F)] = 1
    serr.x[("ferr", F)] = 1
    # fgets may also stop at EOF after reading something, then *feof* is set
    return [Outcome(st, ptr, "line"), Outcome(seof, ZERO, "eof"), Outcome(serr, ZERO, "err")]


def m_fgetc(E, st, I, a):
    F = fkey(E, a[0])
    seof, serr = fork(st), fork(st)
    r = E.fresh(st, I, "ch", 32)
    E.assume(st, T.mkcmp("ult", r, C(256, 32)), 1)
    seof.x[("feof", F)] = 1
    serr.x[("ferr", F)] = 1
    return [Outcome(st, r, "char"), Outcome(seof, NEG1_32, "eof"),
            Outcome(serr, NEG1_32, "err")]


def m_read(E, st, I, a):
    fd, buf, n = a
    total = cint(E, st, n)
    for m in E.monitors:
        m.access(E, st, I, E.toptr(buf), total if total is not None else ("len", n), "store")
    seof, serr = fork(st), fork(st)
    E.havoc_range(st, buf, total, I, "rd")
    r = E.fresh(st, I, "n", 64)
    ok = E.assume(st, T.mkcmp("sgt", r, C(0, 64)), 1) and \
        E.assume(st, T.mkcmp("ule", r, n), 1)
    out = [Outcome(seof, C(0, 64), "eof"), Outcome(serr, C(-1, 64), "err")]
    if ok:
        out.insert(0, Outcome(st, r, "some"))
    return out


def m_open(E, st, I, a):
    s2 = fork(st)
    r = E.fresh(st, I, "fd", 32)
    E.assume(st, T.mkcmp("sge", r, C(0, 32)), 1)
    return [Outcome(st, r, "ok"), Outcome(s2, NEG1_32, "fail")]


def m_getenv(E, st, I, a):
    s2 = fork(st)
    nm = cstr(E, st, a[0])
    o = ("ext", "env", nm or str(I.uid))
    return [Outcome(st, ("p", o, ZERO), "ok"), Outcome(s2, ZERO, "fail")]


def m_bool(E, st, I, a):
    s2 = fork(st)
    return [Outcome(st, C(1, I.ty.bits), "yes"), Outcome(s2, C(0, I.ty.bits), "no")]


def m_fillout(argno, size, okv=0):
    """status call that fills a struct through a pointer argument"""
    def f(E, st, I, a):
        s2 = fork(st)
        n = size
        E.havoc_range(st, a[argno], n, I, "out")
        return [Outcome(st, C(okv, I.ty.bits), "ok"), Outcome(s2, C(-1, I.ty.bits), "fail")]
    return f


def m_strchr(E, st, I, a):
    s2 = fork(st)
    p = E.toptr(a[0])
    k = E.fresh(st, I, "idx", 64)
    E.assume(st, T.mkcmp("ult", k, C(1 << 62, 64)), 1)
    return [Outcome(st, T.add(p, k, 64), "found"), Outcome(s2, ZERO, "none")]


def m_strtox(E, st, I, a):
    if a[1] != ZERO:
        p = E.toptr(a[0])
        k = E.fresh(st, I, "end", 64)
        E.store(st, a[1], 8, T.add(p, k, 64), I)
    r = E.fresh(st, I, "val", I.ty.bits)
    # may set errno
    E.havoc_range(st, ("p", ("g", "errno"), ZERO), 4, I, "errno")
    return Outcome(st, r, "any")


def m_asprintf(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, None, ("init", ("h", st.top.ctx, I.uid, "h")))
    E.store(st, a[0], 8, p, I)
    r = E.fresh(st, I, "n", 32)
    E.assume(st, T.mkcmp("sge", r, C(0, 32)), 1)
    return [Outcome(st, r, "ok"), Outcome(s2, NEG1_32, "fail")]


def m_heap_or_null(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, None, ("init", ("h", st.top.ctx, I.uid, "h")))
    return [Outcome(st, p, "ok"), Outcome(s2, ZERO, "fail")]


def m_strcspn(E, st, I, a):
    """an index inside the string: within its object when that has a known size"""
    p = E.toptr(a[0])
    r = E.fresh(st, I, "idx", 64)
    E.assume(st, T.mkcmp("ult", r, C(1 << 62, 64)), 1)
    ob = E.obj(st, p[1]) if p[1] != ("wild",) else None
    off = cint(E, st, p[2])
    if ob is not None and ob.size is not None and off is not None and ob.size > off:
        E.assume(st, T.mkcmp("ult", r, C(ob.size - off, 64)), 1)
    return Outcome(st, r, "any")


LIBC = {
    "malloc": m_malloc, "calloc": m_calloc, "realloc": m_realloc,
    "posix_memalign": m_memalign, "aligned_alloc": m_malloc, "mmap": m_mmap,
    "munmap": m_int_okfail(), "free": m_void,
    "strdup": m_strdup, "strndup": m_strdup,
    "llvm.memcpy": m_memcpy, "llvm.memmove": m_memcpy, "llvm.memset": m_memset,
    "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset,
    "strlen": m_strlen, "memcmp": m_memcmp, "bcmp": m_memcmp, "strcmp": m_cmp, "strncmp": m_cmp,
    "strcasecmp": m_cmp,
    "exit": m_exit, "_exit": m_exit, "_Exit": m_exit, "abort": m_noreturn,
    "__assert_fail": m_noreturn, "__errno_location": m_errno,
    "fopen": m_fopen, "fopen64": m_fopen, "fdopen": m_fopen, "fread": m_fread,
    "fwrite": m_fwrite, "ferror": m_ferror, "feof": m_feof, "clearerr": m_clearerr,
    "fgets": m_fgets, "fgetc": m_fgetc, "getc": m_fgetc,
    "fclose": m_int_okfail(), "fflush": m_int_okfail(),
    "fprintf": m_any, "printf": m_any, "vfprintf": m_any, "fputs": m_any,
    "snprintf": default_external, "fputc": m_any, "puts": m_any, "putchar": m_any,
    "vsnprintf": default_external, "sprintf": default_external,
    "fileno": m_any, "isatty": m_bool,
    "read": m_read, "open": m_open, "open64": m_open, "close": m_int_okfail(),
    "getenv": m_getenv, "secure_getenv": m_getenv,
    "clock_gettime": m_fillout(1, 16), "clock_getres": m_fillout(1, 16),
    "getrlimit": m_fillout(1, 16), "getrlimit64": m_fillout(1, 16),
    "setrlimit": m_int_okfail(), "sysinfo": m_fillout(0, 112),
    "tcgetattr": m_fillout(1, 60), "tcsetattr": m_int_okfail(),
    "sigaction": default_external, "sigemptyset": default_external, "raise": m_any,
    "kill": m_any, "getpid": m_any,
    "strchr": m_strchr, "strrchr": m_strchr, "strcspn": m_strcspn, "strspn": m_strcspn,
    "strtoumax": m_strtox, "strtoimax": m_strtox, "strtod": m_strtox, "strtoul": m_strtox,
    "strtoull": m_strtox, "strtol": m_strtox, "strerror": m_any,
    "llvm.va_start": m_void, "llvm.va_end": m_void, "llvm.stacksave": m_any,
    "llvm.stackrestore": m_void, "llvm.is": m_any, "llvm.trap": m_noreturn,
    "sysconf": m_any, "llvm.fmuladd": m_any, "llvm.fabs": m_any, "memchr": m_any,
    "strpbrk": m_strchr, "strstr": m_strchr, "getauxval": m_any,
}

# ---- repository functions, by contract -----------------------------------------

def hkey(kind, p):
    return (kind, p)


def piece(E, st, p, n):
    k = cint(E, st, n)
    p = E.toptr(p)
    c = E.content(st, p, k) if k is not None else None
    if c is not None:
        return ("data", k) + c
    if k == 0:
        return None
    return ("var", p, n, verterm(E, st, p))


def sha_init(E, st, I, a):
    st.x[("sha", E.toptr(a[0]))] = ("sha",)
    E.havoc_range(st, a[0], 104, I, "ctx")
    return Outcome(st)


def sha_update(E, st, I, a):
    k = ("sha", E.toptr(a[0]))
    cur = st.x.get(k, ("sha", ("unknown",)))
    if len(cur) < 12:
        p = piece(E, st, a[1], a[2])
        st.x[k] = merge_piece(cur, p)
    return Outcome(st)


def merge_piece(cur, p):
    if p is None:
        return cur
    last = cur[-1]
    if isinstance(last, tuple) and last and last[0] == "data" and p[0] == "data":
        pl = list(last[2:])
        for l, v in p[2:]:
            if pl:
                l0, v0 = pl[-1]
                if v[0] == "blob" and v0[0] == "blob" and v[1] == v0[1] and \
                        v0[2] + v0[3] == v[2]:
                    pl[-1] = (l0 + l, ("blob", v[1], v0[2], l0 + l))
                    continue
                if v[0] == "c" and v0[0] == "c":
                    pl[-1] = (l0 + l, C(v0[1] | (v[1] << (8 * l0)), 8 * (l0 + l)))
                    continue
            pl.append((l, v))
        return cur[:-1] + (("data", last[1] + p[1]) + tuple(pl),)
    return cur + (p,)


def digest(E, st, I, p, desc, n=32):
    p = E.toptr(p)
    off = cint(E, st, p[2])
    for m in E.monitors:
        m.access(E, st, I, p, n, "store")
    if p[1] == ("wild",):
        return
    if off is None:
        E.havoc_obj(st, p[1], I, "dg")
        return
    st.mem[p[1]] = E.obj(st, p[1]).write(off, n, ("blob", T.mkdigest(desc), 0, n))


def sha_final(E, st, I, a):
    k = ("sha", E.toptr(a[1]))
    digest(E, st, I, a[0], st.x.pop(k, ("sha", ("unknown",))))
    return Outcome(st)


def sha_buf(E, st, I, a):
    p = piece(E, st, a[0], a[1])
    digest(E, st, I, a[2], ("sha", p) if p else ("sha",))
    return Outcome(st)


def hmac_init(E, st, I, a):
    k = ("hmac", E.toptr(a[0]))
    st.x[k] = ("hmac", ("key", piece(E, st, a[1], a[2])))
    st.x.pop(("hmacsites", k[1]), None)
    return Outcome(st)


def hmac_update(E, st, I, a):
    k = ("hmac", E.toptr(a[0]))
    cur = st.x.get(k, ("hmac", ("unknown",)))
    p = piece(E, st, a[1], a[2])
    # "more" absorbs everything fed by a loop (the same site a second time) or of
    # symbolic length, so that the description stays finite
    ks = ("hmacsites", k[1])
    sites = st.x.get(ks, ())
    here = (st.top.ctx, I.uid)
    if p is not None:
        if cur[-1] == ("more",) or here in sites or len(cur) > 8:
            if cur[-1] != ("more",):
                cur = cur + (("more",),)
        else:
            cur = merge_piece(cur, p)
            st.x[ks] = sites + (here,)
    st.x[k] = cur
    return Outcome(st)


def hmac_final(E, st, I, a):
    k = ("hmac", E.toptr(a[1]))
    st.x.pop(("hmacsites", k[1]), None)
    digest(E, st, I, a[0], st.x.pop(k, ("hmac", ("unknown",))))
    return Outcome(st)


def hmac_buf(E, st, I, a):
    kp, kl, ip, il, dg = a
    p = piece(E, st, ip, il)
    d = ("hmac", ("key", piece(E, st, kp, kl)))
    digest(E, st, I, dg, d + ((p,) if p else ()))
    return Outcome(st)


def m_scrypt(E, st, I, a):
    s2 = fork(st)
    n = cint(E, st, a[8])
    for m in E.monitors:
        m.access(E, st, I, E.toptr(a[7]), n if n is not None else ("len", a[8]), "store")
    E.havoc_range(st, a[7], n, I, "dk")
    E.havoc_range(s2, a[7], n, I, "dkf")
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, NEG1_32, "fail")]


def m_entropy(E, st, I, a):
    s2 = fork(st)
    n = cint(E, st, a[1])
    for m in E.monitors:
        m.access(E, st, I, E.toptr(a[0]), n if n is not None else ("len", a[1]), "store")
    E.havoc_range(st, a[0], n, I, "entropy")
    E.havoc_range(s2, a[0], n, I, "entropyf")
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, NEG1_32, "fail")]


def m_verify(E, st, I, a):
    s2 = fork(st)
    w = I.ty.bits
    r = E.fresh(s2, I, "neq", w)
    E.assume(s2, T.mkcmp("ne", r, C(0, w)), 1)
    return [Outcome(st, C(0, w), "equal"), Outcome(s2, r, "differ")]


def m_keyexpand(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, None, ("init", ("h", st.top.ctx, I.uid, "h")))
    st.x[("aeskey", p)] = piece(E, st, a[0], a[1])
    return [Outcome(st, p, "ok"), Outcome(s2, ZERO, "fail")]


def m_ctrinit(E, st, I, a):
    s2 = fork(st)
    p = heap(E, st, I, None, ("init", ("h", st.top.ctx, I.uid, "h")))
    st.x[("ctr", p)] = (st.x.get(("aeskey", E.toptr(a[0])), ("unknown",)), a[1])
    return [Outcome(st, p, "ok"), Outcome(s2, ZERO, "fail")]


def m_ctrstream(E, st, I, a):
    n = cint(E, st, a[3])
    for m in E.monitors:
        m.access(E, st, I, E.toptr(a[1]), n if n is not None else ("len", a[3]), "load")
        m.access(E, st, I, E.toptr(a[2]), n if n is not None else ("len", a[3]), "store")
    E.havoc_range(st, a[2], n, I, "ctr")
    return Outcome(st)


def m_ctrbuf(E, st, I, a):
    n = cint(E, st, a[4])
    E.havoc_range(st, a[3], n, I, "ctr")
    return Outcome(st)


def m_memtouse(E, st, I, a):
    s2 = fork(st)
    r = E.fresh(st, I, "mem", 64)
    E.store(st, a[2], 8, r, I)
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, NEG1_32, "fail")]


def m_cpuperf(E, st, I, a):
    s2, s3 = fork(st), fork(st)
    r = E.fresh(st, I, "opps", 64)
    E.store(st, a[0], 8, r, I)
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, C(2, 32), "clock"),
            Outcome(s3, C(3, 32), "kdf")]


CRYPTO = {
    "SHA256_Init": sha_init, "SHA256_Update": sha_update, "SHA256_Final": sha_final,
    "SHA256_Buf": sha_buf, "HMAC_SHA256_Init": hmac_init,
    "HMAC_SHA256_Update": hmac_update, "HMAC_SHA256_Final": hmac_final,
    "HMAC_SHA256_Buf": hmac_buf,
}
UTIL = {
    "warn": m_void, "warnx": m_void, "warnp": m_void,
    "warn0": m_void, "warnp_setprogname": m_void,
    "insecure_memzero": m_memzero, "crypto_verify_bytes": m_verify,
    "asprintf": m_asprintf, "humansize": m_heap_or_null,
}
CORE = {
    "crypto_scrypt": m_scrypt, "crypto_entropy_read": m_entropy,
    "crypto_aes_key_expand": m_keyexpand, "crypto_aes_key_free": m_void,
    "crypto_aesctr_init": m_ctrinit, "crypto_aesctr_stream": m_ctrstream,
    "crypto_aesctr_free": m_void, "crypto_aesctr_buf": m_ctrbuf,
    "memtouse": m_memtouse, "scryptenc_cpuperf": m_cpuperf,
}


def models(*groups, drop=()):
    d = dict(LIBC)
    for g in groups:
        d.update(g)
    for n in drop:
        d.pop(n, None)
    return d


# ---- contracts used by P02 for the remaining layers ---------------------------------

def m_monoclock(E, st, I, a):
    s2 = fork(st)
    E.havoc_range(st, a[0], None, I, "clock")
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, NEG1_32, "fail")]


def m_smix(E, st, I, a):
    E.havoc_range(st, a[0], None, I, "smix")
    return Outcome(st)


def m_pbkdf2(E, st, I, a):
    E.havoc_range(st, a[5], cint(E, st, a[6]), I, "pbkdf2")
    return Outcome(st)


def m_readpass(E, st, I, a):
    s2 = fork(st)
    o = heap(E, st, I, None, ("undef",), "pw")
    E.havoc_range(st, o, None, I, "passwd")
    E.store(st, a[0], 8, o, I)
    return [Outcome(st, C(0, 32), "ok"), Outcome(s2, NEG1_32, "fail")]


LAYERS = {
    "monoclock_get": m_monoclock, "monoclock_getres": m_monoclock,
    "crypto_scrypt_smix": m_smix, "crypto_scrypt_smix_sse2": m_smix,
    "PBKDF2_SHA256": m_pbkdf2, "readpass": m_readpass, "readpass_file": m_readpass,
}
SAMELAYER = {}
ZERO_GLOBALS = {}


# ---- SHA-256 block function ------------------------------------------------------------

def m_transform(E, st, I, a):
    for p, n, kinds in ((a[0], 32, ("load", "store")), (a[1], 64, ("load",))) + \
            (((a[2], 256, ("store",)), (a[3], 32, ("store",))) if len(a) == 4 else ()):
        for k in kinds:
            for m in E.monitors:
                m.access(E, st, I, E.toptr(p), n, k)
    E.havoc_range(st, a[0], 32, I, "state")
    if len(a) == 4:
        E.havoc_range(st, a[2], 256, I, "schedule")
        E.havoc_range(st, a[3], 32, I, "working")
    return Outcome(st)


TRANSFORM = {"SHA256_Transform" + x: m_transform for x in
             ("", "_sse2", "_shani", "_shani_with_W_S", "_arm", "_arm_with_W_S")}
