"""Monitors shared by several property checks."""
import terms as T
from terms import C, ZERO
from engine import Monitor
from terms import secret_in

FAIL = ("fail", "err", "differ")


def is_const(E, st, t, v):
    return E.constval(st, t) == v


RETRY = {"close", "read", "open", "sigaction", "nanosleep", "waitpid"}


class Latch(Monitor):
    """remembers the failure outcomes seen on a path; a call which is retried at the same
    place until it succeeds has not failed"""

    def __init__(self, tags=("fail", "err"), ignore=(), skip=None, only=None, retry=RETRY):
        self.tags = tags
        self.ignore = set(ignore)
        self.skip = skip
        self.only = only
        self.retry = retry

    def post(self, E, st, I, fn, args, ret, tag):
        if fn in self.retry and tag not in self.tags:
            cur = st.mon.get("fail", ())
            new = tuple(x for x in cur if x[0] != fn or x[2] != I.uid)
            if new != cur:
                st.mon["fail"] = new
                if not new:
                    del st.mon["fail"]
        if tag is not None:
            E.cx.ob("outcomes of fallible calls")
        if tag in self.tags and fn not in self.ignore:
            if self.only is not None and fn not in self.only:
                return
            if self.skip and self.skip(E, st, I, fn, args, tag):
                return
            cur = st.mon.get("fail", ())
            e = (fn, tag, I.uid)
            if e not in cur and len(cur) < 4:
                st.mon["fail"] = cur + (e,)


def failures(st):
    return st.mon.get("fail", ())


# ---------------------------------------------------------------------------------

ALLOC = {
    "malloc": "heap", "calloc": "heap", "realloc": "heap", "strdup": "heap",
    "strndup": "heap", "aligned_alloc": "heap", "mmap": "map", "fopen": "FILE",
    "fopen64": "FILE", "fdopen": "FILE", "humansize": "heap",
    "crypto_aes_key_expand": "aes key", "crypto_aesctr_init": "aes ctr",
    "crypto_aesctr_alloc": "aes ctr",
}
ALLOC_OUT = {"posix_memalign": (0, "heap"), "asprintf": (0, "heap"),
             "scryptdec_file_prep": (6, "cookie"), "readpass": (0, "heap"),
             "readpass_file": (0, "heap"), "passphrase_entry_readpass": (0, "heap"),
             "open": (None, "fd")}
FREE = {"free": "heap", "munmap": "map", "fclose": "FILE", "crypto_aes_key_free": "aes key",
        "crypto_aesctr_free": "aes ctr", "scryptdec_file_cookie_free": "cookie"}


class Own(Monitor):
    """every owned resource is released exactly once, by the matching function, before
    the entry point returns - unless ownership is handed to the caller"""

    def __init__(self, fd=True, exit_is_release=True, extra_out=()):
        self.fd = fd
        self.out = dict(ALLOC_OUT)
        self.out.update(dict(extra_out))

    def get(self, st):
        return st.mon.get("own", ())

    def add(self, E, st, I, kind, p):
        own = st.mon["own"] = tuple(sorted(self.get(st) + ((kind, p),), key=repr))
        if sum(k == kind for k, _ in own) >= 12:
            # a loop that does not release what it acquires has no last state
            E.report(st, "leaked resource", I, "twelve or more resources of the kind '%s' are "
                     "held at once" % kind)

    def modelled(self, E, fn):
        return fn in E.models

    def post(self, E, st, I, fn, args, ret, tag):
        if tag == "inlined":
            return
        cx = E.cx
        if fn in ALLOC and tag == "ok":
            p = E.toptr(ret)
            cx.ob("acquisitions")
            if fn == "realloc" and args[0] != ZERO:
                self.release(E, st, I, fn, E.toptr(args[0]), "heap", ok=True)
            self.add(E, st, I, ALLOC[fn], p)
        elif fn in self.out and tag in ("ok",):
            a, kind = self.out[fn]
            if a is None:
                if self.fd:
                    cx.ob("acquisitions")
                    self.add(E, st, I, kind, ret)
                return
            p = E.load(st, args[a], 8)
            cx.ob("acquisitions")
            self.add(E, st, I, kind, p)

    def pre(self, E, st, I, fn, args):
        if fn in FREE and fn in E.models:
            a = args[0]
            if E.constval(st, a) == 0:
                return
            E.cx.ob("releases")
            p = E.toptr(a)
            self.release(E, st, I, fn, p, FREE[fn])
        elif fn == "close" and self.fd:
            own = self.get(st)
            for k, t in own:
                if k == "fd" and t == args[0]:
                    st.mon["own"] = tuple(x for x in own if x != (k, t))
                    E.cx.ob("releases")
                    return

    def release(self, E, st, I, fn, p, kind, ok=False):
        own = self.get(st)
        hit = [x for x in own if x[1] == p]
        if hit:
            if hit[0][0] != kind:
                E.report(st, "mismatched release", I,
                         "%s() releases an object acquired as %s" % (fn, hit[0][0]))
            st.mon["own"] = tuple(x for x in own if x != hit[0])
            fr = st.mon.get("freed", ())
            st.mon["freed"] = tuple(sorted(set(fr + (p,)), key=repr))[:6]
            return
        inner = [x for x in own if x[1][:2] == p[:2]]
        if inner:
            if kind != "map":
                E.report(st, "release of interior pointer", I, "%s() of a pointer into the "
                         "middle of an owned object" % fn)
            return
        if p in st.mon.get("freed", ()):
            E.report(st, "double release", I, "%s() of an object that was already released"
                     % fn)
            return
        if p[1][0] in ("al", "g"):
            E.report(st, "release of non-heap object", I, "%s() of a local or global object"
                     % fn)

    def frame_end(self, E, st, fr, I):
        # released pointers nobody can reach any more need not be remembered
        fd = st.mon.get("freed", ())
        if not fd:
            return
        live = set()
        for f in st.frames:
            for k, v in f.env.items():
                live |= T.atoms(v)
        for v in fr.env.values():
            live |= T.atoms(v)
        for o, ob in st.mem.items():
            if o[0] == "al" and o[1] == fr.ctx:
                continue
            for _, _, v in ob.cells:
                live |= T.atoms(v)
        keep = tuple(p for p in fd if p[1] in live)
        if keep != fd:
            if keep:
                st.mon["freed"] = keep
            else:
                del st.mon["freed"]

    def access(self, E, st, I, p, n, kind):
        fr = st.mon.get("freed", ())
        if fr and p[0] == "p":
            for q in fr:
                if q[1] == p[1]:
                    E.report(st, "use after release", I, "%s of released memory" % kind)

    def ret(self, E, st, val):
        own = self.get(st)
        if not own:
            return
        reach = set()
        todo = []
        if val is not None:
            todo.append(val)
        for o, ob in list(st.mem.items()):
            if o[0] in ("arg", "g", "env", "init", "ext", "d"):
                for _, _, v in ob.cells:
                    todo.append(v)
        seen = set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            reach.add(v)
            if v[0] == "p":
                reach.add(("p", v[1], ZERO))
                ob = st.mem.get(v[1])
                if ob is not None:
                    todo += [c[2] for c in ob.cells]
        for kind, p in own:
            if p not in reach and not (p[0] == "p" and p[1][0] == "arg"):
                E.report(st, "leak", self.site(E, p, st),
                         "%s acquired here is neither released nor handed to the caller on "
                         "a returning path of %s()" % (kind, E.entry.name))

    def site(self, E, p, st):
        try:
            k = p[1] if p[0] in ("p", "s") else p
            while k[0] == "stale":
                k = k[1]
            uid = k[2]
            i = E.prog.inst_by_uid(uid)
            return "%s (%s)" % (i.loc, i.func.name)
        except Exception:
            return E.entry.name


# ---------------------------------------------------------------------------------

class Bounds(Monitor):
    """accesses to objects of known size stay inside them. Sizes are those of variables, of
    heap blocks (which may be symbolic), and of the buffers described by args: the number of
    an argument -> a number of bytes, or the number of the argument with the length and a
    constant to add"""

    def __init__(self, args=None, only=None, heap=True):
        self.only = only
        self.args = args or {}
        self.heap = heap

    def start(self, E, st):
        self.argsz = {}
        E.relate = True
        self.seen = set()
        for i, d in self.args.items():
            if d == "len":
                E.assume(st, T.mkcmp("ule", ("s", ("arg", i), 64), C(1 << 62, 64)), 1)
                continue
            if isinstance(d, int):
                t = C(d, 64)
            else:
                z = ("s", ("arg", d[0]), 64)
                E.assume(st, T.mkcmp("ule", z, C(1 << 62, 64)), 1)
                if z not in E.lens:
                    E.lens += (z,)
                t = T.add(z, C(d[1], 64), 64)
            self.argsz[("arg", i)] = t

    def post(self, E, st, I, fn, args, ret, tag):
        if not self.heap or tag != "ok":
            return
        n = None
        if fn == "malloc":
            n = args[0]
        elif fn == "aligned_alloc":
            n = args[1]
        elif fn == "posix_memalign":
            n, ret = args[2], E.load(st, args[0], 8)
        elif fn == "mmap":
            n = args[1]
        if n is not None and E.constval(st, n) is None:
            p = E.toptr(ret)
            if p[2] == ZERO:
                st.mon["hsz"] = tuple(sorted(tuple(x for x in st.mon.get("hsz", ())
                                                   if x[0] != p) + ((p, n),), key=repr))

    def size(self, E, st, o):
        ob = st.mem.get(o)
        if ob is None:
            ob = E.obj(st, o)
        if ob.size is not None:
            return C(ob.size, 64)
        if o in self.argsz:
            return self.argsz[o]
        for p, n in st.mon.get("hsz", ()):
            if p[1] == o:
                return n
        return None

    def access(self, E, st, I, p, n, kind):
        if p[0] != "p" or p[1] == ("wild",):
            return
        size = self.size(E, st, p[1])
        if size is None or n is None:
            return
        if self.only and not self.only(E, st, I):
            return
        E.cx.ob("bounded accesses")
        nn = n if isinstance(n, int) else E.constval(st, n[1])
        nt = C(n, 64) if isinstance(n, int) else n[1]
        if nn == 0:
            return
        end = T.add(p[2], nt, 64)
        d = E.decide(st, T.mkcmp("ule", end, size))
        lo = E.decide(st, T.mkcmp("ule", p[2], size))
        if d == 1 and lo == 1:
            return
        if (I.uid, kind, d) in self.seen:
            return
        self.seen.add((I.uid, kind, d))
        v = E.constval(st, size)
        what = "%s of %s byte(s) at %s of %s" % (
            kind, nn if nn is not None else "a variable number of",
            "offset %d" % E.constval(st, p[2]) if E.constval(st, p[2]) is not None else
            "an offset in [%d, %d]" % (E.rng(st, p[2]).ulo, E.rng(st, p[2]).uhi),
            "an object of %s bytes" % (v if v is not None else "variable number of"))
        if d == 0 or lo == 0:
            E.report(st, "out of bounds", I, what)
        else:
            E.report(st, "possibly out of bounds", I, what)

    def index(self, E, st, I, subs):
        """index into an array of declared length (which may be part of a larger object)"""
        if self.only and not self.only(E, st, I):
            return
        for x, n in subs:
            E.cx.ob("array indices")
            w = T.width(x)
            d = E.decide(st, T.mkcmp("ult" if I.leaf else "ule", x, C(n, w)))
            if d == 1 or ("ix", I.uid, d) in self.seen:
                continue
            self.seen.add(("ix", I.uid, d))
            r = E.rng(st, x)
            E.report(st, "out of bounds" if d == 0 else "possibly out of bounds", I,
                     "index in [%d, %d] of an array of %d elements" % (r.slo, r.shi, n))


# ---------------------------------------------------------------------------------

def unstale(k):
    while isinstance(k, tuple) and k and k[0] == "stale":
        k = k[1]
    return k


def src_tag(k):
    """tag of the contract or havoc that produced opaque key k"""
    k = unstale(k)
    if k[0] in ("bl", "hv", "sy"):
        return k[3]
    return None


class Residue(Monitor):
    """no memory that goes out of existence (freed heap, a returning function's locals,
    everything but the results at the end) still holds secret bytes"""

    def __init__(self, pred, result_args=(), extra=None, final_globals=False):
        self.pred = pred
        self.result_args = set(result_args)
        self.extra = extra

    def scan(self, E, st, o, ob, what, where):
        E.cx.ob("objects checked at end of life")
        for off, n, v in ob.cells:
            s = secret_in(v, self.pred)
            if s:
                E.report(st, "secret left in memory", where, "%s goes out of use while bytes "
                         "%d..%d still hold %s" % (what, off, off + n, s))
                return
        if ob.base[0] not in ("zero", "undef", "wiped"):
            s = self.pred(ob.base)
            if s:
                covered = ob.size is not None and sum(c[1] for c in ob.cells) >= ob.size
                if not covered:
                    E.report(st, "secret left in memory", where,
                             "%s goes out of use while it still holds %s" % (what, s))
        if self.extra:
            s = self.extra(E, st, o, ob)
            if s:
                E.report(st, "secret left in memory", where,
                         "%s goes out of use while it still holds %s" % (what, s))

    def oname(self, E, o):
        o = unstale(o)
        if o[0] == "al":
            try:
                fk = E.ctxinfo[o[1]][2]
                i = E.prog.inst_by_uid((fk, o[2]))
                if i is not None:
                    return "local variable %s of %s()" % (i.name or "?", i.func.name)
            except Exception:
                pass
            return "a local variable"
        if o[0] == "h":
            return "heap memory"
        return "memory"

    def frame_end(self, E, st, fr, I):
        for o, ob in st.mem.items():
            if o[0] == "al" and o[1] == fr.ctx:
                self.scan(E, st, o, ob, self.oname(E, o), I)

    def pre(self, E, st, I, fn, args):
        if fn == "free" and args[0][0] == "p":
            o = args[0][1]
            ob = st.mem.get(o)
            if ob is not None:
                self.scan(E, st, o, ob, "heap memory passed to free()", I)

    def ret(self, E, st, val):
        fr = st.frames[-1]
        for o, ob in st.mem.items():
            if o[0] == "al" and o[1] == fr.ctx:
                blk = fr.func.blocks[fr.block]
                self.scan(E, st, o, ob, self.oname(E, o), blk.insts[fr.idx])
