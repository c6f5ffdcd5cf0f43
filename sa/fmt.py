"""The scrypt encrypted-data format (the repository's FORMAT file), as a specification
over byte provenance, and the monitors that compare an execution's bytes with it.

offset  0  "scrypt"
        6  version 0
        7  log2(N)
        8  r  (big-endian 32 bit)
       12  p  (big-endian 32 bit)
       16  salt (32 bytes)
       48  first 16 bytes of SHA256(bytes 0..47)
       64  HMAC-SHA256(bytes 0..63), key = bytes 32..63 of the derived key
       96  ciphertext: AES256-CTR, nonce 0, key = bytes 0..31 of the derived key
  96 + X  HMAC-SHA256(bytes 0..96+X-1), key = bytes 32..63 of the derived key
"""
import terms as T
from terms import C, ZERO
from mons import Monitor, src_tag, unstale


def blist(pieces):
    """content pieces -> list of one descriptor per byte"""
    out = []
    for l, v in pieces:
        if v[0] == "c":
            for i in range(l):
                out.append(C((v[1] >> (8 * i)) & 255, 8))
        elif v[0] == "blob":
            if v[1][0] == "digest":
                d = dkey(v[1])
                for i in range(l):
                    out.append(("blob", d, v[2] + i, 1))
            else:
                for i in range(l):
                    out.append(("blob", v[1], v[2] + i, 1))
        else:
            for t in T.tobytes(v, l):
                out.append(norm(t))
    return out


def norm(t):
    if t[0] == "c":
        return C(t[1] & 255, 8)
    if t[0] == "blob" and t[3] == 1 and t[1][0] == "digest":
        return ("blob", dkey(t[1]), t[2], 1)
    return t


_dk = {}


def dkey(key):
    """digest key whose data is spelled out byte by byte"""
    r = _dk.get(key)
    if r is None:
        r = _dk[key] = T.mkdigest(dnorm(T.desc(key)))
        _dk[r] = r
    return r


def dnorm(desc):
    out = []
    for x in desc:
        if isinstance(x, tuple) and x and x[0] == "key":
            out.append(("key", tuple(blist(x[1][2:])) if x[1] and x[1][0] == "data" else x[1]))
        elif isinstance(x, tuple) and x and x[0] == "data":
            if x[1] <= 4096:
                out.append(("bytes",) + tuple(blist(x[2:])))
            else:
                n = 0
                head = []
                for l, v in x[2:]:
                    if n + l > 4096:
                        break
                    head += blist(((l, v),))
                    n += l
                out.append(("bigdata", x[1]) + tuple(head))
        else:
            out.append(x)
    return tuple(out)


def content(E, st, p, n):
    c = E.content(st, p, n)
    return None if c is None else blist(c)


def kdf_bytes(lo, n, bl):
    """does bl hold bytes lo..lo+n-1 of one key-derivation output?"""
    if bl is None or len(bl) != n:
        return False
    k = bl[0]
    if k[0] != "blob" or src_tag(k[1]) != "dk":
        return False
    return all(x[0] == "blob" and x[1] == k[1] and x[2] == lo + i for i, x in enumerate(bl))


def want_sum(h):
    """expected checksum bytes for header bytes h"""
    d = T.mkdigest(("sha", ("bytes",) + tuple(h[0:48])))
    return [("blob", d, i, 1) for i in range(16)]


def hmac_over(bl, n=32):
    """the digest description if bl is a whole HMAC value"""
    if not bl or len(bl) != n or bl[0][0] != "blob" or bl[0][1][0] != "digest":
        return None
    if any(x[0] != "blob" or x[1] != bl[0][1] or x[2] != i for i, x in enumerate(bl)):
        return None
    d = T.desc(bl[0][1])
    return d if d and d[0] == "hmac" else None



def hmac_key_ok(d):
    return len(d) > 1 and d[1][0] == "key" and d[1][1] is not None and \
        kdf_bytes(32, 32, list(d[1][1])) if isinstance(d[1][1], tuple) else False


def check_header(h, salt_tag="entropy"):
    """problems of 96 header bytes, without the parameters"""
    bad = []
    magic = [C(b, 8) for b in b"scrypt\0"]
    if h[0:7] != magic:
        bad.append("bytes 0-6 are not the magic and version")
    s = h[16]
    if s[0] != "blob" or src_tag(s[1]) != salt_tag or \
            any(x[0] != "blob" or x[1] != s[1] or x[2] != i for i, x in enumerate(h[16:48])):
        bad.append("bytes 16-47 are not 32 bytes of this run's random salt")
    if h[48:64] != want_sum(h):
        bad.append("bytes 48-63 are not the checksum of bytes 0-47")
    d = hmac_over(h[64:96])
    if d is None or not hmac_key_ok(d) or len(d) != 3 or \
            d[2] != ("bytes",) + tuple(h[0:64]):
        bad.append("bytes 64-95 are not the keyed signature of bytes 0-63")
    return bad


def be32(E, t):
    """the four big-endian byte descriptors of a 32-bit value"""
    b = T.tobytes(t, 4)
    return [norm(x) for x in reversed(b)]


def shifted_one(n):
    """x when n is 1 << x, else None"""
    if n[0] == "c":
        v = n[1]
        if v and not v & (v - 1):
            return C(v.bit_length() - 1, 32)
        return None
    if n[0] == "o" and n[1] == "shl" and n[3][0] == C(1, n[2]):
        x = n[3][1]
        while x[0] == "o" and x[1] in ("zext", "sext"):
            x = x[3][0]
        return x
    return None


def fold(E, st, b):
    """a byte of a term that is known to have one value"""
    if b[0] == "by":
        iv = E.rng(st, b[1])
        if iv.ulo == iv.uhi:
            return C(iv.ulo >> 8 * b[2] & 255, 8)
    elif b[0] != "c" and T.width(b) == 8:
        iv = E.rng(st, b)
        if iv.ulo == iv.uhi:
            return C(iv.ulo, 8)
    return b


def check_params(E, st, h, kdf):
    """header bytes 7..15 agree with the parameters the key was derived with"""
    N, r, p = kdf
    bad = []

    def same(x, y):
        return len(x) == len(y) and all(
            i == j or fold(E, st, i) == fold(E, st, j) for i, j in zip(x, y))
    x = shifted_one(N)
    if x is None:
        bad.append("N given to the key derivation is not a power of two of a log value")
    else:
        lo = norm(T.tobytes(x, max(1, T.width(x) // 8))[0]) if x[0] != "c" else \
            C(x[1] & 255, 8)
        if not same([h[7]], [lo]):
            bad.append("byte 7 is not log2 of the N the key was derived with")
        elif E.rng(st, x).uhi > 63:
            bad.append("byte 7 can be %d, which is not log2 of the N the key was derived with" %
                       E.rng(st, x).uhi)
    if not same(h[8:12], be32(E, r)):
        bad.append("bytes 8-11 are not the big-endian r the key was derived with")
    if not same(h[12:16], be32(E, p)):
        bad.append("bytes 12-15 are not the big-endian p the key was derived with")
    return bad
