"""Reference constructions in the domain of vn.py, from the standards."""
import vn
from vn import cat, words

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79,
          83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167,
          173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263,
          269, 271, 277, 281, 283, 293, 307, 311]


def root(n, k):
    """floor(n ** (1/k))"""
    lo, hi = 0, n + 1
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m
    return lo


# FIPS 180-4: fractional parts of square and cube roots of primes
IV = [root(p << 64, 2) & 0xffffffff for p in PRIMES[:8]]
K = [root(p << 96, 3) & 0xffffffff for p in PRIMES]


def bswap(w):
    return cat(reversed(words(w, 8)))


def sha_block(D, state, block):
    """the block function; words of the state and bytes of the block in memory order"""
    h = words(state)
    w = [bswap(x) for x in words(block)]
    for t in range(16, 64):
        w.append(D.add(D.add(vn.s1(D, w[t - 2]), w[t - 7]),
                       D.add(vn.s0(D, w[t - 15]), w[t - 16])))
    s = list(h)
    for t in range(64):
        s = vn.rnd(D, s, D.add(w[t], D.const(K[t], 32)))
    return cat([D.add(x, y) for x, y in zip(h, s)])


def salsa(D, b, rounds=8):
    """Salsa20 core (16 words)"""
    x = list(b)

    def qr(a, b_, c, d):
        for t, u, v, n in ((b_, a, d, 7), (c, b_, a, 9), (d, c, b_, 13), (a, d, c, 18)):
            x[t] = D.xor(x[t], D.rotr(D.add(x[u], x[v]), 32 - n))
    for _ in range(rounds // 2):
        qr(0, 4, 8, 12)
        qr(5, 9, 13, 1)
        qr(10, 14, 2, 6)
        qr(15, 3, 7, 11)
        qr(0, 1, 2, 3)
        qr(5, 6, 7, 4)
        qr(10, 11, 8, 9)
        qr(15, 12, 13, 14)
    return [D.add(p, q) for p, q in zip(b, x)]


def blockmix(D, B, salsa=salsa):
    """scryptBlockMix (RFC 7914, 4): B is a list of 2r blocks of 16 words"""
    X = B[-1]
    Y = []
    for b in B:
        X = salsa(D, [D.xor(p, q) for p, q in zip(X, b)])
        Y.append(X)
    return Y[0::2] + Y[1::2]


def romix(D, B, r, N, salsa=salsa):
    """scryptROMix (RFC 7914, 5); B: 128*r bytes as one value"""
    X = [words(b) for b in words(B, 512)]
    V = []
    for _ in range(N):
        V.append(X)
        X = blockmix(D, X, salsa)
    k = N.bit_length() - 1
    for _ in range(N):
        j = cat(X[2 * r - 1][:2])[:k]
        sel = tuple(sorted({b for b in j if b > 1}))
        cand = []
        for m in range(1 << len(sel)):
            env = {b: m >> i & 1 for i, b in enumerate(sel)}
            cand.append(V[sum((b if b < 2 else env[b]) << i for i, b in enumerate(j))])
        T = [[D.xor(x, tuple([D.mux1(sel, tuple([c[p][q][b] for c in cand]))
                              for b in range(32)]))
              for q, x in enumerate(blk)] for p, blk in enumerate(X)]
        X = blockmix(D, T, salsa)
    return cat(cat(b) for b in X)


def aes_expand(D, key):
    """FIPS 197, 5.2: round keys (128 bits each) of a key"""
    nk = len(key) // 32
    w = words(key)
    nr = nk + 6
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = w[i - 1]
        if i % nk == 0:
            t = D.xor(vn.subword(D, D.rotr(t, 8)), D.const(rc, 32))
            rc = (rc << 1 ^ (0x11b if rc & 0x80 else 0)) & 0xff
        elif nk > 6 and i % nk == 4:
            t = vn.subword(D, t)
        w.append(D.xor(w[i - nk], t))
    return [cat(w[i:i + 4]) for i in range(0, len(w), 4)]


def aes(D, rk, b):
    b = D.xor(b, rk[0])
    for k in rk[1:-1]:
        b = vn.aesround(D, b, k)
    return vn.aeslast(D, b, rk[-1])


# hashes of byte strings, in terms of a block function

def sha256(D, msg, F=sha_block):
    """SHA-256 of a value whose length is a whole number of bytes"""
    n = len(msg)
    m = msg + D.const(0x80, 8)
    m += (0,) * (-(len(m) + 64) % 512)
    m += bswap(D.const(n, 64))
    s = cat(D.const(x, 32) for x in IV)
    for i in range(0, len(m), 512):
        s = F(D, s, m[i:i + 512])
    return cat(bswap(w) for w in words(s))


def hmac(D, key, msg, F=sha_block):
    """RFC 2104"""
    if len(key) > 512:
        key = sha256(D, key, F)
    key += (0,) * (512 - len(key))
    pad = lambda c: D.xor(key, D.const(int.from_bytes(bytes([c]) * 64, "little"), 512))
    return sha256(D, pad(0x5c) + sha256(D, pad(0x36) + msg, F), F)


def pbkdf2(D, pw, salt, c, n, F=sha_block):
    """RFC 8018, 5.2: n bytes"""
    out = ()
    i = 1
    while len(out) < 8 * n:
        u = hmac(D, pw, salt + bswap(D.const(i, 32)), F)
        t = u
        for _ in range(c - 1):
            u = hmac(D, pw, u, F)
            t = D.xor(t, u)
        out += t
        i += 1
    return out[:8 * n]
