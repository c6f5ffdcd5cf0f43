"""Value numbering of whole operations: encryption and decryption of a file or a buffer, and
the key derivation, as expressions over plaintext, passphrase and salt."""
import engine
import vnref as R
from vn import Dom, Undecided, size
from props import check
from props.accel import strlen
from props.blocks import (TRANSFORMS, VN, Eval, aes, block_function, const, keystream, opaque, openssl)

BLOCK = 65536


class File:
    """a stdio stream with these bytes to read; what is written is collected"""

    def __init__(self, data=(), fails=None):
        self.data = data        # bytes, each a tuple of bits
        self.pos = 0
        self.out = []
        self.fails = fails      # position from which on reading fails
        self.eof = self.err = False
        self.back = None


def stdio():
    """contracts for stdio; the stream is found by the object that stands for it"""
    def fl(vm, p):
        if p[0] != "p" or p[1] not in vm.files:
            raise Undecided("unknown stream")
        return vm.files[p[1]]

    def one(vm, f):
        if f.back is not None:
            b, f.back = f.back, None
            return b
        if f.fails is not None and f.pos >= f.fails:
            f.err = True
            return None
        if f.pos >= len(f.data):
            f.eof = True
            return None
        f.pos += 1
        return f.data[f.pos - 1]

    def fread(vm, I, a):
        f = fl(vm, a[3])
        s, n = size(vm, a[1], "fread"), size(vm, a[2], "fread")
        got = []
        while len(got) < s * n:
            b = one(vm, f)
            if b is None:
                break
            got.append(b)
        if got:
            vm.storebytes(a[0], got)
        return vm.D.const(len(got) // s if s else 0, 64)

    def fwrite(vm, I, a):
        f = fl(vm, a[3])
        s, n = size(vm, a[1], "fwrite"), size(vm, a[2], "fwrite")
        if s * n:
            f.out.extend(vm.loadbytes(a[0], s * n))
        return vm.D.const(n, 64)

    def fgetc(vm, I, a):
        b = one(vm, fl(vm, a[0]))
        return vm.D.const((1 << 32) - 1, 32) if b is None else tuple(b) + (0,) * 24

    def ungetc(vm, I, a):
        f = fl(vm, a[1])
        f.back = a[0][:8]
        f.eof = False
        return a[0]

    def fputc(vm, I, a):
        fl(vm, a[1]).out.append(a[0][:8])
        return a[0][:8] + (0,) * 24

    def zero(vm, I, a):
        return (0,) * 32
    return {
        "fread": fread, "fread_unlocked": fread, "fwrite": fwrite, "fwrite_unlocked": fwrite,
        "fgetc": fgetc, "getc": fgetc, "getc_unlocked": fgetc, "ungetc": ungetc,
        "fputc": fputc, "putc": fputc, "putc_unlocked": fputc,
        "fflush": zero,
        "setvbuf": zero,
        "feof": lambda vm, I, a: vm.D.const(int(fl(vm, a[0]).eof), 32),
        "ferror": lambda vm, I, a: vm.D.const(int(fl(vm, a[0]).err), 32),
    }


def stream(vm, data=(), fails=None):
    p = vm.new("stream", 216)
    if not hasattr(vm, "files"):
        vm.files = {}
    vm.files[p[1]] = File(data, fails)
    return p


def written(vm, p):
    return tuple(b for x in vm.files[p[1]].out for b in x)


def kdf(D, pw, salt, N, r, p, n):
    """the key derivation as a function of everything that goes into it"""
    out = ()
    for i in range((n + 31) // 32):
        out += D.fn("scrypt", (pw, salt, N, r, p, i), 256)
    return out[:8 * n]


def surroundings(cx):
    """contracts under which whole operations are followed, the block function, and AES"""
    D = Dom()
    con, F, _ = opaque(D)
    for n in TRANSFORMS:
        if not cx.has(n) or not block_function(cx, n):
            raise Undecided("the block function was not found by name")

    def derive(vm, I, a):
        D = vm.D
        pn, sn = size(vm, a[1], "passphrase"), size(vm, a[3], "salt")
        N, r, p = (size(vm, a[i], "parameter") for i in (4, 5, 6))
        n = size(vm, a[8], "key")
        vm.put(a[7], kdf(D, vm.get(a[0], pn), vm.get(a[2], sn), N, r, p, n))
        return (0,) * 32

    def entropy(vm, I, a):
        n = size(vm, a[1], "entropy")
        for i in range(n):
            vm.put(vm.padd(a[0], vm.D.const(i, 64)),
                   vm.D.named(("in", "salt", vm.salts + i), 8))
        vm.salts += n
        return (0,) * 32

    def quiet(vm, I, a):
        return (0,) * 32
    def compare(vm, I, a):
        n = size(vm, a[2], "comparison")
        return vm.D.const(int(vm.get(a[0], n) != vm.get(a[1], n)), 32)
    con.update(openssl(D))
    con["memcmp"] = con["bcmp"] = compare
    con.update(stdio())
    for pre in ("", "libcperciva_"):
        con[pre + "crypto_scrypt"] = derive
        con[pre + "crypto_entropy_read"] = entropy
        con[pre + "crypto_verify_bytes"] = compare
        con[pre + "warn"] = con[pre + "warnx"] = quiet
        con[pre + "warn0"] = con[pre + "warnp"] = quiet
    con["fprintf"] = quiet
    return D, con, F


def ciphers(cx, D):
    """contracts for the cipher as a whole, for long inputs"""
    keys, streams, memo = {}, {}, {}

    def other(vm, I, a):
        raise Undecided("a function of the cipher that is not known")

    def expand(vm, I, a):
        p = vm.new("expanded key", 1)
        keys[p[1]] = vm.get(a[0], size(vm, a[1], "key"))
        return p

    def init(vm, I, a):
        p = vm.new("cipher", 1)
        streams[p[1]] = [keys[a[0][1]], a[1], 0]
        return p

    def run(vm, I, a):
        n = size(vm, a[3], "stream")
        k, nonce, pos = s = streams[a[0][1]]
        if n:
            vm.put(a[2], D.xor(vm.get(a[1], n), long_keystream(D, memo, k, nonce, pos, n)))
        s[2] += n

    def free(vm, I, a):
        if a[0][0] == "p":
            vm.objs[a[0][1]].freed = True
    out = {}
    for f in cx.prog().funcs.values():
        n = engine.cname(f.name)
        if n.startswith("crypto_aes") and "_can_use_" not in n:
            out[n] = other
    known = {"crypto_aes_key_expand": (expand, 2), "crypto_aesctr_init": (init, 2),
             "crypto_aesctr_stream": (run, 4), "crypto_aesctr_free": (free, 1),
             "crypto_aes_key_free": (free, 1)}
    for n, (h, k) in known.items():
        if len(cx.func(n).params) != k:
            raise Undecided("%s() is not as expected" % n)
        out[n] = h
    for n in list(out):
        out["libcperciva_" + n] = out[n]
    return out, memo


def long_keystream(D, memo, k, nonce, pos, n):
    ks = memo.get((k, nonce), ())
    if len(ks) < 8 * (pos + n):
        have = len(ks) // 128 * 16
        ks = ks[:8 * have] + keystream(D, aes, k, nonce, have, (pos + n + 15) // 16 * 16 - have)
        memo[(k, nonce)] = ks
    return ks[8 * pos:8 * (pos + n)]


def message(D, F, pw, salt, logN, r, p, data, memo=None):
    """the documented format"""
    n = len(data) // 8
    dk = kdf(D, pw, salt, 1 << logN, r, p, 64)
    head = D.const(int.from_bytes(b"scrypt\0", "little"), 56) + D.const(logN, 8)
    head += R.bswap(D.const(r, 32)) + R.bswap(D.const(p, 32)) + salt
    head += R.sha256(D, head, F)[:128]
    head += R.hmac(D, dk[256:], head, F)
    body = head + D.xor(data, long_keystream(
        D, {} if memo is None else memo, dk[:256], (0,) * 64, 0, n)) if n else head
    return body + R.hmac(D, dk[256:], body, F)


def params(vm, logN=0, r=0, p=0):
    P = vm.new("params", 40, "zero")
    for off, v in ((24, logN), (28, r), (32, p)):
        vm.put(vm.padd(P, const(vm, off)), const(vm, v, 32))
    return P


def bytesof(v):
    return [v[i:i + 8] for i in range(0, len(v), 8)]


PARAMS = ((1, 1, 1), (14, 8, 1), (10, 8, 3), (20, 8, 1000), (33, 1, 16777216),
          (63, 255, 65536), (2, 70000, 258), (40, 0x3fffffff, 1))


@check("P37", "value numbering of whole encryptions and decryptions against the file format",
       VN + "The SHA-256 block function, AES and the key derivation are uninterpreted "
       "functions; what is written is compared with the documented format, and what decrypting "
       "that gives with the plaintext.",
       ["stdio reads and writes the bytes it is asked for (failures: P01, P02, P04)",
        "sizes and parameters are those listed; plaintext, passphrase and salt are arbitrary",
        "the resource limits are overridden or explicit parameters are within them"])
def p37(cx):
    operations(cx)
    cx.need("encryptions", 20, "encryptions compared with the format")
    cx.need("decryptions", 40, "decryptions compared with the plaintext")
    cx.need("damaged", 20, "damaged files")


def operations(cx, light=False):
    cx.rule("FORMAT: what scryptenc_buf() and scryptenc_file() produce for n bytes are, as "
            "expressions over plaintext, passphrase and salt, the n + 128 bytes that FORMAT "
            "describes")
    cx.rule("INVERSE: scryptdec_buf() and scryptdec_file_prep() with scryptdec_file_copy() "
            "turn these bytes, whichever of the two made them, into the plaintext and nothing "
            "else, and report success")
    cx.rule("DAMAGE: when this file is cut short, has a byte more or ends with something else, "
            "neither reports success")
    cx.rule("HISTORY: this is so too for each of several operations after each other")
    D, con, F = surroundings(cx)
    E = Eval(cx, (), con, D)
    salt = tuple(b for i in range(32) for b in D.named(("in", "salt", i), 8))
    eb, ef = cx.func("scryptenc_buf"), cx.func("scryptenc_file")
    db, dp, dc = (cx.func(x) for x in (
        "scryptdec_buf", "scryptdec_file_prep", "scryptdec_file_copy"))

    made = {}
    try:
        con2, memo = ciphers(cx, D)
        E2 = Eval(cx, (), {**con, **con2}, D)
    except (Undecided, KeyError):
        E2, memo = E, {}
        cx.notes.append("the functions of the cipher were not found; few long files are tried")

    def begin(vm):
        vm.maxsteps = 60000000
        vm.salts = 0

    def encrypt(vm, kind, data, pw, ps):
        """-> (status, what was produced)"""
        n, pn = len(data) // 8, len(pw) // 8
        q = vm.new("passphrase", pn)
        vm.put(q, pw)
        P = vm.params = params(vm, *ps)
        one, no = const(vm, 1, 32), const(vm, 0, 32)
        if kind == "buffer":
            i, o = vm.new("plaintext", n), vm.new("result", n + 128)
            vm.put(i, data)
            rc = vm.call(eb, [i, const(vm, n), o, q, const(vm, pn), P, no, one])
            return D.num(rc), vm.get(o, n + 128)
        i, o = stream(vm, bytesof(data)), stream(vm)
        rc = vm.call(ef, [i, o, q, const(vm, pn), P, no, one])
        return D.num(rc), written(vm, o)

    def decrypt(vm, kind, msg, pw):
        n, pn = len(msg) // 8, len(pw) // 8
        q = vm.new("passphrase", pn)
        vm.put(q, pw)
        P = vm.params = params(vm)
        one, no = const(vm, 1, 32), const(vm, 0, 32)
        if kind == "buffer":
            i, o, l = vm.new("file", n), vm.new("result", n), vm.new("length", 8)
            vm.put(i, msg)
            rc = D.num(vm.call(db, [i, const(vm, n), o, l, q, const(vm, pn), P, no, one]))
            if rc:
                return rc, ()
            k = D.num(vm.get(l, 8))
            return rc, vm.get(o, min(k, n)) if k is not None else None
        i, o, c = stream(vm, bytesof(msg)), stream(vm), vm.new("cookie", 8)
        rc = D.num(vm.call(dp, [i, q, const(vm, pn), P, no, one, c]))
        if rc:
            return rc, ()
        rc = D.num(vm.call(dc, [vm.loadbytes(c, 8)[0][1], o]))
        return rc, written(vm, o)

    def inputs(n, pn):
        # in a long plaintext, the middle of each block is of zeros
        data = tuple(b for i in range(n) for b in (
            D.named(("in", "plaintext", i), 8) if n < 2000 or n - i < 200 or
            (i + 150) % BLOCK < 300 else (0,) * 8))
        pw = tuple(b for i in range(pn) for b in D.named(("in", "passphrase", i), 8))
        return data, pw

    def name(dec, kind):
        return "scrypt%s_%s" % ("dec" if dec else "enc", "buf" if kind == "buffer" else "file")

    def wanted(pw, ps, data):
        k = (pw, ps, len(data))
        if k not in made:
            made.clear()
            made[k] = message(D, F, pw, salt, *ps, data, memo)
        return made[k]

    def used(vm, ps):
        return ("what the caller is told of logN, r and p",
                vm.get(vm.padd(vm.params, const(vm, 24)), 12),
                tuple(b for x in ps for b in D.const(x, 32)))

    def same(what, got, want):
        """by length, then by content"""
        if got is None or len(got) != len(want):
            return [("the length of " + what, None if got is None else len(got) // 8,
                     len(want) // 8)]
        return [(what, got, want)]

    def forth(kind, n, pn, ps, E=E):
        data, pw = inputs(n, pn)

        def body(vm):
            begin(vm)
            rc, out = encrypt(vm, kind, data, pw, ps)
            cx.ob("encryptions")
            return [("the status", rc, 0), used(vm, ps)] + same(
                "the encrypted file", out, wanted(pw, ps, data))
        E.run(name(0, kind), "%d bytes, passphrase of %d, logN=%d r=%d p=%d" % (
            (n, pn) + ps), body, "format")

    def back(kind, n, pn, ps, E=E):
        data, pw = inputs(n, pn)

        def body(vm):
            begin(vm)
            rc, out = decrypt(vm, kind, wanted(pw, ps, data), pw)
            cx.ob("decryptions")
            return [("the status", rc, 0), used(vm, ps)] + same("the decrypted file", out, data)
        E.run(name(1, kind), "file for %d bytes, passphrase of %d, logN=%d r=%d p=%d" % (
            (n, pn) + ps), body, "inverse")

    def damaged(kind, n, what, how, pw2=None, status=None, E=E):
        data, pw = inputs(n, 9)

        def body(vm):
            begin(vm)
            rc, out = decrypt(vm, kind, how(wanted(pw, (14, 8, 1), data)),
                              pw if pw2 is None else pw2)
            cx.ob("damaged")
            if status is not None:
                return [("the status", rc, status)] + same("what is written", out, ())
            return [("the status being success", rc == 0, False)]
        E.run(name(1, kind), "file for %d bytes %s" % (n, what), body, "damage")
    def sequence(*ops):
        """one after the other in one process"""
        def body(vm):
            begin(vm)
            res = []
            for j, (what, kind, n, ps) in enumerate(ops):
                data, pw = inputs(n, 9 + j)
                if what == "enc":
                    rc, out = encrypt(vm, kind, data, pw, ps)
                    at = vm.salts - 32
                    s = tuple(b for i in range(32) for b in D.named(("in", "salt", at + i), 8))
                    want = message(D, F, pw, s, *ps, data)
                    res += [("the status", rc, 0)] + same(
                        "the encrypted file (operation %d)" % (j + 1), out, want)
                    cx.ob("encryptions")
                    continue
                msg = wanted(pw, ps, data)
                if what == "cut":
                    rc, out = decrypt(vm, kind, msg[:-8], pw)
                    res.append(("the status being success", rc == 0, False))
                elif what == "wrong":
                    rc, out = decrypt(vm, kind, msg, pw + pw[:8])
                    res.append(("the status with another passphrase", rc, 11))
                else:
                    rc, out = decrypt(vm, kind, msg, pw)
                    res += [("the status", rc, 0)] + same(
                        "the decrypted file (operation %d)" % (j + 1), out, data)
                cx.ob("damaged" if what in ("cut", "wrong") else "decryptions")
            return res
        E.run(name(ops[-1][0] != "enc", ops[-1][1]), "after each other: " + ", ".join(
            "%s of a %s of %d" % o[:3] for o in ops), body, "history")
    sizes = [0, 1, 16, 33, 100] if light else \
        list(range(0, 36)) + [47, 48, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129, 1000]
    big = [BLOCK, BLOCK + 1] if light else [
        BLOCK + d for d in (-33, -32, -31, -1, 0, 1, 31, 32, 33)]
    if cx.tier == "thorough":
        sizes = list(range(0, 300)) + [1000, 4095, 4096, 4097]
        big += [k * BLOCK + d for k in (2, 3) for d in (-32, -1, 0, 1, 32)] + [10 * BLOCK]
    for kind in ("buffer", "file"):
        for f in (forth, back):
            for n in sizes:
                f(kind, n, 9, (14, 8, 1))
            for pn in (0, 1, 64, 65, 2000):
                f(kind, 20, pn, (14, 8, 1))
            for ps in PARAMS:
                f(kind, 20, 9, ps)
    for kind in ("buffer", "file"):
        for f in (forth, back):
            try:
                for n in big if E2 is not E else big[-1:]:
                    f(kind, n, 9, (14, 8, 1), E2)
            except Undecided as e:
                if E2 is E:
                    raise
                cx.notes.append("few long files are tried: %s" % e)
                f(kind, big[-1], 9, (14, 8, 1))
    A, B = (14, 8, 1), (4, 3, 2)
    try:
        for k1, k2 in (("file", "buffer"), ("buffer", "file"), ("file", "file"),
                       ("buffer", "buffer")):
            sequence(("enc", k1, 40, A), ("enc", k2, 7, B), ("dec", k1, 33, B),
                     ("dec", k2, 100, A))
            sequence(("cut", k1, 40, A), ("wrong", k1, 7, B), ("dec", k2, 33, B),
                     ("cut", k2, 3, B), ("enc", k2, 20, A), ("dec", k1, 1, A))
    except Undecided as e:
        cx.notes.append("sequences of operations are not decided: %s" % e)
    if light:
        return
    extra = tuple(b for k in range(32) for b in D.named(("in", "extra", k), 8))
    no = lambda m: m
    cuts = [
        ("without its last byte", lambda m: m[:-8]),
        ("without its first byte", lambda m: m[8:]),
        ("with a byte added", lambda m: m + extra[:8]),
        ("with 32 bytes added", lambda m: m + extra),
        ("with its end added once more", lambda m: m + m[-256:]),
        ("without the 32 bytes before the code", lambda m: m[:-512] + m[-256:]),
        ("without its code", lambda m: m[:-256]),
        ("with another code", lambda m: m[:-256] + extra),
        ("with another last byte", lambda m: m[:-8] + extra[:8]),
        ("with another version", lambda m: m[:48] + D.const(1, 8) + m[56:]),
        ("with another magic", lambda m: m[:8] + D.const(0, 8) + m[16:]),
        ("with N doubled", lambda m: m[:56] + D.const(15, 8) + m[64:]),
        ("with another r", lambda m: m[:88] + D.const(9, 8) + m[96:]),
        ("with another p", lambda m: m[:120] + D.const(2, 8) + m[128:]),
        ("with another salt", lambda m: m[:376] + extra[:8] + m[384:]),
        ("with another checksum", lambda m: m[:504] + extra[:8] + m[512:]),
        ("with another header signature", lambda m: m[:760] + extra[:8] + m[768:]),
        ("with nothing but its header", lambda m: m[:768]),
        ("cut to nothing", lambda m: ())]
    try:
        for kind in ("buffer", "file"):
            for n in (0, 5, 32, 64) + ((BLOCK,) if E2 is not E and not cx.notes else ()):
                for what, how in cuts:
                    if n < BLOCK or how(tuple(range(2000)))[-8:] != tuple(range(1992, 2000)):
                        damaged(kind, n, what, how, E=E2 if n == BLOCK else E)
                if n in (5, BLOCK):
                    for k in (0, 4):
                        damaged(kind, n, "with byte %d of the data changed" % k, lambda m:
                                m[:768 + 8 * k] + extra[:8] + m[776 + 8 * k:],
                                E=E2 if n == BLOCK else E)
            for n in (0, 20):
                for k, pw2 in enumerate((extra[:72], extra[:64], inputs(0, 10)[1],
                                         inputs(0, 8)[1], ())):
                    damaged(kind, n, "opened with another passphrase (%d)" % k, no, pw2, 11)
    except Undecided as e:
        cx.notes.append("damaged files are not decided here (see P03, P05): %s" % e)


def scrypt(cx, light=False):
    """crypto_scrypt() as a whole, in terms of the block function and of the mixing function"""
    cx.rule("WHOLE: each byte of the key is, as an expression over passphrase and salt, that "
            "of RFC 7914 (6), with the hash's block function and the mixing function taken as "
            "functions of what they are given")
    D = Dom()
    con, F, _ = opaque(D)
    names = [n for n in ("crypto_scrypt_smix", "crypto_scrypt_smix_sse2") if cx.has(n)]
    if not names or not all(cx.has(n) and block_function(cx, n) for n in TRANSFORMS):
        raise Undecided("the mixing or the block function was not found by name")
    for n in names:
        if len(cx.func(n).params) != 5:
            raise Undecided("%s() has other parameters" % n)

    def mix(B, r, N):
        return D.fn("mix", (B, r, N), 1024 * r)

    def mixing(vm, I, a):
        r, N = size(vm, a[1], "block"), size(vm, a[2], "rounds")
        vm.put(a[0], mix(vm.get(a[0], 128 * r), r, N))

    def compare(vm, I, a):
        # the comparison that ends a self-test; P31 is about those
        n = size(vm, a[2], "comparison")
        x, y = vm.get(a[0], n), vm.get(a[1], n)
        if x != y and (vm.D.num(x) is None) == (vm.D.num(y) is None):
            raise Undecided("a comparison")
        return (0,) * 32
    for n in names:
        con[n] = mixing
    con["memcmp"] = con["bcmp"] = compare
    con["mmap"] = con["mmap64"] = lambda vm, I, a: vm.new("V", vm.D.num(a[1]), "undef", 4096)
    con["munmap"] = lambda vm, I, a: (0,) * 32
    con["madvise"] = con["munmap"]
    con["strlen"] = strlen
    for pre in ("", "libcperciva_"):
        con[pre + "warn0"] = con[pre + "warn"] = con[pre + "warnx"] = con["munmap"]
    f = cx.func("crypto_scrypt")

    def want(pw, salt, N, r, p, n):
        B = R.pbkdf2(D, pw, salt, 1, 128 * r * p, F)
        m = 1024 * r
        B = tuple(x for i in range(p) for x in mix(B[m * i:m * (i + 1)], r, N))
        return R.pbkdf2(D, pw, B, 1, n, F)

    def go(fs, *calls):
        E = Eval(cx, fs, con, D)

        def body(vm):
            res = []
            for j, (pn, sn, N, r, p, n) in enumerate(calls):
                a, b, o = (vm.new(x, k, "in") for x, k in (
                    ("passphrase", pn), ("salt", sn), ("key", n)))
                pw, s = vm.get(a, pn), vm.get(b, sn)
                rc = D.num(vm.call(f, [a, const(vm, pn), b, const(vm, sn), const(vm, N),
                                       const(vm, r, 32), const(vm, p, 32), o, const(vm, n)]))
                cx.ob("whole derivations")
                res += [("the status", rc, 0),
                        ("the key" if len(calls) == 1 else "key %d" % (j + 1), vm.get(o, n),
                         want(pw, s, N, r, p, n))]
            return res
        E.run("crypto_scrypt", "; ".join(
            "passphrase of %d bytes, salt of %d, N=%d r=%d p=%d, %d bytes" % c for c in calls),
            body, "scrypt")
    sizes = [(9, 32, 16384, 8, 1, 64), (0, 0, 2, 1, 1, 1), (64, 8, 4, 1, 2, 32),
             (65, 32, 1 << 20, 8, 3, 33), (9, 70, 1 << 40, 2, 5, 100)]
    if not light:
        sizes += [(pn, sn, 1024, 8, 1, 64) for pn in (1, 8, 55, 63, 128, 1000)
                  for sn in (1, 31, 60, 64, 200)]
        sizes += [(8, 32, 1 << k, 4, 1, 64) for k in range(1, 50)]
        sizes += [(8, 32, 8, r, p, 64) for r in (1, 2, 3, 5, 7, 8, 16, 33)
                  for p in (1, 2, 3, 4, 16)]
        sizes += [(8, 32, 8, 300, 1, 64), (8, 32, 8, 1, 300, 64)]
        sizes += [(8, 32, 8, 1, 1, n) for n in (0, 2, 31, 34, 63, 65, 128, 1000, 8193)]
    if light and cx.tier == "thorough":
        return scrypt(cx)
    for fs in ((), ("sse2",)):
        for s in sizes:
            go(fs, s)
        go(fs, *sizes[:5])
        go(fs, *reversed(sizes[:5]))
