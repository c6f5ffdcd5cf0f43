"""Contents as exact strings of byte terms: contracts for functions of byte strings whose
result is a name for that string, and reference constructions to compare with."""
import models as M
import terms as T
from models import Outcome, fork
from terms import C


# -- canonical bytes --------------------------------------------------------------------------

def byte(t, i=0):
    """byte i of term t in a canonical form"""
    k = t[0]
    if k == "c":
        return C(t[1] >> (8 * i) & 255, 8)
    if k == "blob":
        return ("blob", t[1], t[2] + i, 1)
    if k == "by":
        return byte(t[1], t[2]) if i == 0 else C(0, 8)
    if k == "cat":
        return byte(t[2][i])
    if k == "o":
        op = t[1]
        if op == "zext":
            return byte(t[3][0], i) if 8 * i < T.width(t[3][0]) else C(0, 8)
        if op == "trunc":
            return byte(t[3][0], i)
        if op == "xor":
            return xor(byte(t[3][0], i), byte(t[3][1], i))
        if op in ("or", "and"):
            a, b = byte(t[3][0], i), byte(t[3][1], i)
            if a == b:
                return a
            for x, y in ((a, b), (b, a)):
                if x[0] == "c":
                    if x[1] == (0 if op == "or" else 255):
                        return y
                    if x[1] == (255 if op == "or" else 0):
                        return x
        if op in ("shl", "lshr") and t[3][1][0] == "c" and t[3][1][1] % 8 == 0:
            s = t[3][1][1] // 8
            j = i - s if op == "shl" else i + s
            return byte(t[3][0], j) if 0 <= j < T.width(t[3][0]) // 8 else C(0, 8)
        if op == "bswap":
            return byte(t[3][0], T.width(t) // 8 - 1 - i)
    if k == "lin" and t[2] == 0 and len(t[3]) > 1:
        # a sum of values that have no bits in common
        bs = []
        for x, c in t[3]:
            if c & (c - 1) or (c.bit_length() - 1) % 8:
                break
            j = i - (c.bit_length() - 1) // 8
            w = T.width(x) // 8
            bs.append(byte(x, j) if 0 <= j < w else C(0, 8))
        else:
            used = set()
            for x, c in t[3]:
                s = (c.bit_length() - 1) // 8
                for j in range(T.width(x) // 8):
                    if byte(x, j) != C(0, 8):
                        if s + j in used:
                            return ("by", t, i)
                        used.add(s + j)
            nz = [b for b in bs if b != C(0, 8)]
            return nz[0] if nz else C(0, 8)
    if k == "lin" and t[2] == 0 and len(t[3]) == 1:
        x, c = t[3][0]
        if not c & (c - 1) and (c.bit_length() - 1) % 8 == 0:
            j = i - (c.bit_length() - 1) // 8
            return byte(x, j) if 0 <= j < T.width(x) // 8 else C(0, 8)
    if T.width(t) == 8:
        return t
    return ("by", t, i)


def xor(a, b):
    """exclusive or of canonical bytes"""
    def parts(x):
        if x[0] == "c":
            return frozenset(), x[1]
        if x[0] == "o" and x[1] == "xors":
            k = [y for y in x[3] if y[0] == "c"]
            return frozenset(y for y in x[3] if y[0] != "c"), k[0][1] if k else 0
        return frozenset((x,)), 0
    (s, c), (s2, c2) = parts(a), parts(b)
    s, c = s ^ s2, c ^ c2
    if not s:
        return C(c, 8)
    if len(s) == 1 and not c:
        return next(iter(s))
    return ("o", "xors", 8, tuple(sorted(s, key=repr)) + ((C(c, 8),) if c else ()))


def const(b):
    return [C(x, 8) for x in b]


def blob(key, n, off=0):
    return [("blob", key, off + i, 1) for i in range(n)]


def content(E, st, p, n):
    """the n bytes at p (n a number), or None"""
    p = E.toptr(p)
    off = E.constval(st, p[2])
    if off is None or p[1] == ("wild",):
        return None
    out = []
    for l, v in E.obj(st, p[1]).pieces(off, n):
        out += [byte(v, i) for i in range(l)]
    return out


def norm(bs):
    """runs of bytes, as a hashable description"""
    out = []
    for b in bs:
        if out:
            p = out[-1]
            if b[0] == "blob" and p[0] == "blob" and b[1] == p[1] and p[2] + p[3] == b[2]:
                out[-1] = ("blob", p[1], p[2], p[3] + 1)
                continue
            if b[0] == "c" and p[0] == "c":
                out[-1] = ("c", p[1] | b[1] << p[2], p[2] + 8)
                continue
        out.append(b)
    return tuple(out)


def unknown(bs):
    return bs is None or any(T.has_top(b) for b in bs)


def show(b):
    """a byte for people"""
    if b[0] == "c":
        return "%02x" % b[1]
    if b[0] == "blob":
        k = b[1]
        if k[0] == "digest":
            return "%s#%d[%d]" % (T.desc(k)[0], k[1][1], b[2])
        if k[0] == "init":
            k = k[1]
        return "%s[%d]" % (" ".join(str(x) for x in k), b[2])
    if b[0] == "o" and b[1] == "xors":
        return "^".join(show(x) for x in b[3])
    return "?"


def diff(got, want):
    """where two byte strings first differ, None if they do not"""
    if len(got) != len(want):
        return "%d bytes instead of %d" % (len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return "byte %d is %s instead of %s" % (i, show(a), show(b))
    return None


# -- functions of byte strings ------------------------------------------------------------------

def name(kind, *parts):
    """32 bytes: the value of an uninterpreted function of byte strings"""
    return ("digest", T.mkdigest((kind,) + tuple(norm(p) for p in parts))[1])


def put(E, st, p, n, key):
    p = E.toptr(p)
    for m in E.monitors:
        m.access(E, st, None, p, n, "store")
    off = E.constval(st, p[2])
    if off is None:
        raise T.__dict__.get("Unsupported", ValueError)("result at unknown address")
    st.mem[p[1]] = E.obj(st, p[1]).write(off, n, ("blob", key, 0, n))


def transform(E, st, I, a):
    s, b = content(E, st, a[0], 32), content(E, st, a[1], 64)
    E.cx.ob("blocks compressed")
    if s is None or b is None:
        E.havoc_range(st, a[0], 32, I, "state")
    else:
        put(E, st, a[0], 32, name("F", s, b))
    if len(a) == 4:
        E.havoc_range(st, a[2], 256, I, "schedule")
        E.havoc_range(st, a[3], 32, I, "working")
    return Outcome(st)


TRANSFORM = {k: transform for k in M.TRANSFORM}

IV = (0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB,
      0x5BE0CD19)


def sha256(msg):
    """reference: SHA-256 of a byte string in terms of the block function (FIPS 180-4); the
    state is kept as little-endian words, as in memory"""
    s = const(b"".join(x.to_bytes(4, "little") for x in IV))
    m = list(msg) + [C(0x80, 8)]
    m += [C(0, 8)] * (-(len(m) + 8) % 64)
    m += const((8 * len(msg)).to_bytes(8, "big"))
    for i in range(0, len(m), 64):
        s = blob(name("F", s, m[i:i + 64]), 32)
    return [s[i ^ 3] for i in range(32)]


def hmac(key, msg, h=sha256):
    """reference: RFC 2104"""
    k = list(key) if len(key) <= 64 else h(key)
    k += [C(0, 8)] * (64 - len(k))
    pad = lambda c: [xor(b, C(c, 8)) for b in k]
    return h(pad(0x5c) + h(pad(0x36) + list(msg)))


def pbkdf2(pw, salt, c, n, prf=hmac):
    """reference: RFC 2898"""
    out = []
    i = 1
    while len(out) < n:
        u = prf(pw, list(salt) + const(i.to_bytes(4, "big")))
        t = u
        for _ in range(c - 1):
            u = prf(pw, u)
            t = [xor(x, y) for x, y in zip(t, u)]
        out += t
        i += 1
    return out[:n]


# HMAC as one uninterpreted function of key and message

def H(key, msg):
    return blob(name("HMAC", key, msg), 32)


def hx(E, st, p):
    return st.x.get(("xh", E.toptr(p)))


def h_init(E, st, I, a):
    n = M.cint(E, st, a[2])
    k = content(E, st, a[1], n) if n is not None else None
    st.x[("xh", E.toptr(a[0]))] = None if unknown(k) else (norm(k), ())
    return Outcome(st)


def spread(runs):
    out = []
    for r in runs:
        n = T.width(r) // 8
        out += [byte(r, i) for i in range(n)]
    return out


def h_update(E, st, I, a):
    n = M.cint(E, st, a[2])
    cur = hx(E, st, a[0])
    d = [] if n == 0 else content(E, st, a[1], n) if n is not None else None
    st.x[("xh", E.toptr(a[0]))] = None if cur is None or unknown(d) else \
        (cur[0], norm(spread(cur[1]) + d))
    return Outcome(st)


def h_final(E, st, I, a):
    cur = st.x.pop(("xh", E.toptr(a[1])), None)
    E.cx.ob("codes computed")
    if cur is None:
        E.havoc_range(st, a[0], 32, I, "mac")
    else:
        put(E, st, a[0], 32, name("HMAC", spread(cur[0]), spread(cur[1])))
    return Outcome(st)


def h_buf(E, st, I, a):
    kn, n = M.cint(E, st, a[1]), M.cint(E, st, a[3])
    k = content(E, st, a[0], kn) if kn is not None else None
    d = [] if n == 0 else content(E, st, a[2], n) if n is not None else None
    E.cx.ob("codes computed")
    if unknown(k) or unknown(d):
        E.havoc_range(st, a[4], 32, I, "mac")
    else:
        put(E, st, a[4], 32, name("HMAC", k, d))
    return Outcome(st)


HMAC = {"HMAC_SHA256_Init": h_init, "HMAC_SHA256_Update": h_update,
        "HMAC_SHA256_Final": h_final, "HMAC_SHA256_Buf": h_buf}


# -- sequences of calls -------------------------------------------------------------------------

class Carry:
    """module and argument memory at the end of a call, as the start of the next one"""

    def __init__(self, st=None, args=()):
        self.mem = {}
        if st is not None:
            for o, ob in st.mem.items():
                if o[0] in ("g", "h", "ext") or o[0] == "arg" and o[1] in args:
                    self.mem[o] = ob
            self.rel = dict(st.rel)
            self.facts = dict(st.facts)

    def setup(self, E, st):
        for o, ob in self.mem.items():
            st.mem[o] = ob
