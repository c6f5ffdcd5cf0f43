"""Monitors following the encryption and decryption entry points."""
import terms as T
from terms import C, ZERO
import fmt
from mons import Monitor, src_tag, unstale


def total(E, st, size, n):
    return T.mul(size, n, 64)


def eq(E, st, a, b):
    return a == b or E.decide(st, T.mkcmp("eq", a, b)) == 1


def zero(E, st, n):
    return E.decide(st, T.mkcmp("eq", n, C(0, 64))) == 1


def arg(i):
    return ("p", ("arg", i), ZERO)


class Common(Monitor):
    """key derivation, key separation"""
    PASS = LEN = None

    def kdf_pre(self, E, st, I, a):
        cx = E.cx
        cx.ob("key derivations")
        if a[0] != arg(self.PASS) or a[1] != ("s", ("arg", self.LEN), 64):
            E.report(st, "KDF", I, "the key is not derived from the caller's whole passphrase")
        salt = fmt.content(E, st, a[2], 32)
        if E.constval(st, a[3]) != 32:
            E.report(st, "KDF", I, "the salt length given to the key derivation is not 32")
        if E.constval(st, a[8]) != 64:
            E.report(st, "KDF", I, "the derived key is not 64 bytes long")
        self.salt_pre(E, st, I, salt)
        st.mon["kdfsalt"] = tuple(salt or ())

    def kdf_post(self, E, st, I, a, tag):
        if tag == "ok":
            st.mon["kdf"] = (a[4], a[5], a[6])

    def ctr_key(self, E, st, I, aes):
        """the stream was keyed with bytes 0..31 of the derived key and nonce 0"""
        cx = E.cx
        cx.ob("stream ciphers keyed")
        k = st.x.get(("ctr", E.toptr(aes)))
        ok = False
        if k is not None and k[0] and k[0][0] == "data":
            ok = fmt.kdf_bytes(0, 32, fmt.blist(k[0][2:]))
        if not ok:
            E.report(st, "KEYS", I, "the data is not encrypted with bytes 0-31 of the derived "
                     "key as an AES-256 key")
        if k is not None and k[1] != C(0, 64):
            E.report(st, "KEYS", I, "the counter-mode nonce is not 0")

    def header_key(self, E, st, I, h):
        d = fmt.hmac_over(h[64:96])
        if d is not None:
            self.mac_key(E, st, I, d)

    def mac_key(self, E, st, I, d):
        E.cx.ob("MAC keys")
        if not fmt.hmac_key_ok(d):
            E.report(st, "KEYS", I, "an authentication tag is not keyed with bytes 32-63 of "
                     "the derived key")
            return False
        return True

    def lab(self, st):
        return st.mon.get("lab", ())

    def setlab(self, st, l):
        if l:
            st.mon["lab"] = tuple(l)
        else:
            st.mon.pop("lab", None)

    def overlap(self, E, st, p, n, q, m):
        """may [p,p+n) and [q,q+m) overlap?"""
        if p[1] != q[1]:
            return False
        if isinstance(n, tuple) and n[0] == "len":
            n = n[1]
        elif isinstance(n, int):
            n = C(n, 64)
        elif n is None:
            return True
        e1, e2 = T.add(p[2], n, 64), T.add(q[2], m, 64)
        if E.decide(st, T.mkcmp("ule", e1, q[2])) == 1 or \
                E.decide(st, T.mkcmp("ule", e2, p[2])) == 1:
            return False
        if zero(E, st, n) or zero(E, st, m):
            return False
        return True


class FileEnc(Common):
    """scryptenc_file(infile, outfile, passwd, passwdlen, P, verbose, force)"""
    IN, OUT, PASS, LEN, P = 0, 1, 2, 3, 4

    def salt_pre(self, E, st, I, salt):
        check_fresh(E, st, I, salt)

    def pre(self, E, st, I, fn, a):
        if fn == "crypto_scrypt":
            self.kdf_pre(E, st, I, a)
        elif fn == "crypto_aesctr_stream":
            self.ctr_key(E, st, I, a[0])
            k = st.mon.setdefault("aes", E.toptr(a[0]))
            if k != E.toptr(a[0]):
                E.report(st, "STREAM", I, "the data is encrypted with more than one key stream")
            if zero(E, st, a[3]):
                return
            src = E.toptr(a[1])
            labs = self.lab(st)
            hit = [l for l in labs if l[0] == "pt" and l[1] == src and eq(E, st, l[2], a[3])]
            if not hit:
                E.report(st, "STREAM", I, "the bytes given to the cipher are not exactly the "
                         "bytes just read from the input")
                return
            self.setlab(st, [l for l in labs if l is not hit[0]])
        elif fn == "HMAC_SHA256_Update":
            src = E.toptr(a[1])
            labs = self.lab(st)
            out = []
            for l in labs:
                if l[0] == "ct" and l[1] == src and eq(E, st, l[2], a[2]) and not l[3]:
                    c = st.mon.setdefault("mctx", E.toptr(a[0]))
                    if c != E.toptr(a[0]):
                        E.report(st, "STREAM", I, "ciphertext is authenticated by more than "
                                 "one MAC computation")
                    if any(x[0] == "ct" and not x[3] for x in out):
                        E.report(st, "STREAM", I, "ciphertext is authenticated out of order")
                    l = ("ct", l[1], l[2], 1, l[4])
                elif self.overlap(E, st, src, ("len", a[2]), l[1], l[2]):
                    E.report(st, "STREAM", I, "the MAC is computed over bytes other than "
                             "exactly one block of ciphertext")
                out.append(l)
            self.setlab(st, [l for l in out if not (l[0] == "ct" and l[3] and l[4])])
        elif fn == "fwrite" and E.toptr(a[3]) == arg(self.OUT):
            self.write(E, st, I, a)
        elif fn in ("fputc", "putc", "fputs", "fprintf", "puts", "printf", "putchar",
                    "_IO_putc"):
            F = a[-1] if fn in ("fputc", "putc", "fputs", "_IO_putc") else \
                a[0] if fn == "fprintf" else None
            if F is not None and E.toptr(F) == arg(self.OUT):
                E.report(st, "STREAM", I, "%s() adds bytes to the encrypted output" % fn)
        elif fn == "fread" and E.toptr(a[3]) == arg(self.IN):
            self.pending(E, st, I, "when more input is read")

    def pending(self, E, st, I, when):
        for l in self.lab(st):
            if zero(E, st, l[2]):
                continue
            what = "plaintext that was read but not encrypted" if l[0] == "pt" else \
                "ciphertext that was not written" if l[3] else \
                "ciphertext that was not authenticated" if l[4] else \
                "ciphertext neither written nor authenticated"
            E.report(st, "STREAM", I, "%s is left behind %s" % (what, when))
        self.setlab(st, ())

    def write(self, E, st, I, a):
        cx = E.cx
        n = total(E, st, a[1], a[2])
        p = E.toptr(a[0])
        ph = st.mon.get("ph", 0)
        if zero(E, st, n):
            return
        k = E.constval(st, n)
        if ph == 2:
            E.report(st, "STREAM", I, "bytes are written after the final authentication tag")
            return
        if ph == 0:
            hdr = st.mon.get("hdr", ())
            b = fmt.content(E, st, p, k) if k is not None and k <= 96 else None
            if b is None or len(hdr) + len(b) > 96:
                E.report(st, "FORMAT", I, "the output does not start with a 96-byte header")
                st.mon["ph"] = 1
                return
            hdr = hdr + tuple(b)
            st.mon["hdr"] = hdr
            if len(hdr) == 96:
                cx.ob("headers written")
                self.header_key(E, st, I, hdr)
                for m in fmt.check_header(list(hdr)) + self.params(E, st, list(hdr)):
                    E.report(st, "FORMAT", I, "header: " + m)
                st.mon["ph"] = 1
            return
        labs = self.lab(st)
        out = []
        hit = False
        for l in labs:
            if not hit and l[0] == "ct" and l[1] == p and eq(E, st, l[2], n) and not l[4]:
                if any(x[0] == "ct" and not x[4] for x in out):
                    E.report(st, "STREAM", I, "ciphertext is written out of order")
                l = ("ct", l[1], l[2], l[3], 1)
                hit = True
            out.append(l)
        if hit:
            cx.ob("ciphertext writes")
            self.setlab(st, [l for l in out if not (l[0] == "ct" and l[3] and l[4])])
            return
        b = fmt.content(E, st, p, 32) if k == 32 else None
        d = fmt.hmac_over(b) if b else None
        if d is None:
            E.report(st, "STREAM", I, "bytes are written which are neither the header, nor "
                     "exactly the ciphertext just produced, nor the authentication tag")
            return
        cx.ob("authentication tags written")
        self.mac_key(E, st, I, d)
        hdr = st.mon.get("hdr", ())
        data = d[2] if len(d) > 2 else ()
        if not (data and data[0] in ("bytes", "bigdata")):
            E.report(st, "STREAM", I, "the authentication tag does not cover the header")
        else:
            body = data[1:] if data[0] == "bytes" else data[2:]
            if tuple(body[:96]) != tuple(hdr):
                E.report(st, "STREAM", I, "the authentication tag does not start with the 96 "
                         "header bytes as written")
            elif data[0] == "bytes" and len(body) > 96 and st.mon.get("mctx") is None:
                E.report(st, "STREAM", I, "the authentication tag covers more than what was "
                         "written")
        st.mon.pop("mctx", None)
        self.pending(E, st, I, "when the authentication tag is written")
        if st.mon.get("in") != "eof":
            E.report(st, "STREAM", I, "the authentication tag is written although the input "
                     "was not read up to its end")
        st.mon["ph"] = 2

    def params(self, E, st, hdr):
        k = st.mon.get("kdf")
        if k is None:
            return ["written before the key was derived"]
        bad = fmt.check_params(E, st, hdr, k)
        if tuple(hdr[16:48]) != st.mon.get("kdfsalt", ()):
            bad.append("bytes 16-47 are not the salt the key was derived with")
        return bad

    def post(self, E, st, I, fn, a, ret, tag):
        if fn == "crypto_scrypt" and tag != "inlined":
            self.kdf_post(E, st, I, a, tag)
        elif fn == "fread" and E.toptr(a[3]) == arg(self.IN):
            E.cx.ob("input reads followed")
            n = T.mul(a[1], ret, 64)
            st.mon["in"] = {"full": "more", "eof": "eof", "err": "err"}[tag]
            if not zero(E, st, n):
                self.setlab(st, self.lab(st) + (("pt", E.toptr(a[0]), n, 0, 0),))
        elif fn == "crypto_aesctr_stream" and tag != "inlined":
            if not zero(E, st, a[3]):
                self.setlab(st, self.lab(st) + (("ct", E.toptr(a[2]), a[3], 0, 0),))
                E.cx.ob("cipher calls followed")

    def access(self, E, st, I, p, n, kind):
        if kind != "store":
            return
        labs = self.lab(st)
        if not labs:
            return
        for l in labs:
            if p[0] == "p" and self.overlap(E, st, p, n, l[1], l[2]):
                E.report(st, "STREAM", I, "%s is overwritten before it was %s" % (
                    "plaintext" if l[0] == "pt" else "ciphertext",
                    "encrypted" if l[0] == "pt" else "written and authenticated"))

    def ret(self, E, st, val):
        if E.decide(st, T.mkcmp("eq", val, C(0, 32))) == 0:
            return
        E.cx.ob("successful returns")
        if st.mon.get("ph", 0) != 2:
            E.report(st, "STREAM", E.entry.name, "success is returned without the final "
                     "authentication tag having been written")


def check_fresh(E, st, I, salt):
    E.cx.ob("salts")
    ok = salt and len(salt) == 32 and salt[0][0] == "blob" and \
        src_tag(salt[0][1]) == "entropy" and unstale(salt[0][1]) == salt[0][1] and \
        all(x[0] == "blob" and x[1] == salt[0][1] and x[2] == i for i, x in enumerate(salt))
    if not ok:
        E.report(st, "SALT", I, "the key is not derived with 32 bytes just obtained from the "
                 "random generator")


class BufEnc(Common):
    """scryptenc_buf(inbuf, inbuflen, outbuf, passwd, passwdlen, P, verbose, force)"""
    IN, INLEN, OUT, PASS, LEN, P = 0, 1, 2, 3, 4, 5

    def start(self, E, st):
        self.n = ("s", ("arg", self.INLEN), 64)
        E.assume(st, T.mkcmp("ult", self.n, C(1 << 62, 64)), 1)

    salt_pre = FileEnc.salt_pre
    params = FileEnc.params

    def end(self):
        return ("p", ("arg", self.OUT), T.add(C(96, 64), self.n, 64))

    def header(self, E, st, I):
        hdr = fmt.content(E, st, arg(self.OUT), 96)
        E.cx.ob("headers written")
        self.header_key(E, st, E.entry.name, hdr)
        for m in fmt.check_header(hdr) + self.params(E, st, hdr):
            E.report(st, "FORMAT", I, "header: " + m)
        return hdr

    def tag(self, E, st, I, b):
        d = fmt.hmac_over(b) if b else None
        if d is None:
            E.report(st, "STREAM", I, "the bytes after the ciphertext are not an "
                     "authentication tag")
            return
        self.mac_key(E, st, I, d)
        want = ("var", arg(self.OUT), T.add(C(96, 64), self.n, 64))
        if len(d) != 3 or d[2][:3] != want or not st.mon.get("hashed"):
            E.report(st, "STREAM", I, "the authentication tag does not cover exactly the "
                     "header and the ciphertext")
        E.cx.ob("authentication tags written")
        st.mon["tagged"] = 1

    def pre(self, E, st, I, fn, a):
        if fn == "crypto_scrypt":
            self.kdf_pre(E, st, I, a)
        elif fn == "crypto_aesctr_stream":
            self.ctr_key(E, st, I, a[0])
            E.cx.ob("cipher calls followed")
            if E.toptr(a[1]) != arg(self.IN) or a[3] != self.n or \
                    E.toptr(a[2]) != ("p", ("arg", self.OUT), C(96, 64)) or \
                    st.mon.get("ctr"):
                E.report(st, "STREAM", I, "the cipher is not applied once to exactly the whole "
                         "input, into the output after the header")
            st.mon["ctr"] = 1
        elif fn in ("HMAC_SHA256_Update", "HMAC_SHA256_Buf"):
            q, m = (a[1], a[2]) if fn == "HMAC_SHA256_Update" else (a[2], a[3])
            if E.toptr(q) == arg(self.OUT) and m == T.add(C(96, 64), self.n, 64):
                if not st.mon.get("ctr"):
                    E.report(st, "STREAM", I, "the output is authenticated before the data "
                             "was encrypted into it")
                self.header(E, st, I)
                st.mon["hashed"] = 1
            if fn == "HMAC_SHA256_Buf" and E.toptr(a[4]) == self.end():
                self.later = 1
        elif fn in ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64"):
            if E.toptr(a[0]) == self.end():
                n = E.constval(st, a[2])
                self.tag(E, st, I, fmt.content(E, st, a[1], 32) if n == 32 else None)
        elif fn == "HMAC_SHA256_Final" and E.toptr(a[0]) == self.end():
            cur = st.x.get(("hmac", E.toptr(a[1])), ("hmac",))
            self.tag(E, st, I, [("blob", T.mkdigest(fmt.dnorm(cur)), i, 1) for i in range(32)])

    def post(self, E, st, I, fn, a, ret, tag):
        if fn == "crypto_scrypt" and tag != "inlined":
            self.kdf_post(E, st, I, a, tag)

    def access(self, E, st, I, p, n, kind):
        if kind == "store" and p[0] == "p" and p[1] == ("arg", self.OUT) and \
                (st.mon.get("hashed")):
            if p != self.end() or (isinstance(n, int) and n != 32):
                E.report(st, "STREAM", I, "the output is modified after it was authenticated")

    def ret(self, E, st, val):
        if E.decide(st, T.mkcmp("eq", val, C(0, 32))) == 0:
            return
        E.cx.ob("successful returns")
        if not st.mon.get("tagged"):
            E.report(st, "STREAM", E.entry.name, "success is returned without an "
                     "authentication tag at the end of the output")


class DecSetup(Common):
    """what decryption may do with a header: shared by the buffer and the file reader"""

    def hdr(self, E, st):
        """the 96 header bytes as the input provides them, or None"""
        raise NotImplementedError

    def salt_pre(self, E, st, I, salt):
        pass

    def setup_pre(self, E, st, I, fn, a):
        if fn == "crypto_scrypt":
            self.kdf_pre(E, st, I, a)
            h = self.hdr(E, st)
            if h is None:
                E.report(st, "HEADER", I, "the key is derived before the header was read "
                         "completely")
                return
            E.cx.ob("header fields compared")
            for m in fmt.check_params(E, st, h, (a[4], a[5], a[6])):
                E.report(st, "HEADER", I, "key derivation parameters: " + m)
            if list(st.mon.get("kdfsalt", ())) != h[16:48]:
                E.report(st, "HEADER", I, "the salt is not header bytes 16-47")
            if "sum" not in st.mon.get("auth", ()):
                E.report(st, "HEADER", I, "the key is derived before the header checksum was "
                         "verified")
            if not self.magic_ok(E, st, h):
                E.report(st, "HEADER", I, "the key is derived although the magic was not "
                         "checked")
            v = h[6]
            if E.decide(st, T.mkcmp("eq", v, C(0, 8))) != 1:
                E.report(st, "HEADER", I, "the key is derived although the format version was "
                         "not checked to be 0")

    def magic_ok(self, E, st, h):
        if "magic" in st.mon.get("auth", ()):
            return True
        return all(E.decide(st, T.mkcmp("eq", h[i], C(b, 8))) == 1
                   for i, b in enumerate(b"scrypt"))

    def setup_post(self, E, st, I, fn, a, ret, tag):
        if fn == "crypto_scrypt" and tag != "inlined":
            self.kdf_post(E, st, I, a, tag)
        elif fn in ("crypto_verify_bytes", "memcmp") and tag in ("equal", "differ"):
            n = E.constval(st, a[2])
            x = y = None
            if n is not None and n <= 4096:
                x, y = fmt.content(E, st, a[0], n), fmt.content(E, st, a[1], n)
            kind = self.compared(E, st, I, fn, a, n, x, y)
            if kind is None:
                if tag == "differ":
                    st.mon["diff"] = "other"
            elif tag == "differ":
                st.mon["diff"] = kind
            else:
                self.add(E, st, kind)
                if kind == "magic" and n == 7:
                    h = self.hdr7(E, st)
                    E.assume(st, T.mkcmp("eq", h[6], C(0, 8)), 1)

    def compared(self, E, st, I, fn, a, n, x, y):
        """which check of the format a comparison performs"""
        h = self.hdr7(E, st)
        if n is not None and 6 <= n <= 7 and h is not None:
            m = [C(b, 8) for b in b"scrypt\0"][:n]
            if (x == h[:n] and y == m) or (y == h[:n] and x == m):
                return "magic"
        if fn == "memcmp":
            return None
        h = self.hdr(E, st)
        if x is not None and y is not None and h is not None:
            for u, v in ((x, y), (y, x)):
                if n == 16 and u == h[48:64] and v == fmt.want_sum(h):
                    return "sum"
                d = fmt.hmac_over(v)
                if n == 32 and u == h[64:96] and d is not None and len(d) == 3 and \
                        d[2] == ("bytes",) + tuple(h[0:64]):
                    if self.mac_key(E, st, I, d):
                        return "sig"
        return self.final_verify(E, st, I, a, n, x, y)

    def add(self, E, st, what):
        E.cx.ob("verified: " + what)
        st.mon["auth"] = tuple(sorted(set(st.mon.get("auth", ())) | {what}))

    def final_verify(self, E, st, I, a, n, x, y):
        pass


class BufDec(DecSetup):
    """scryptdec_buf(inbuf, inbuflen, outbuf, outlen, passwd, passwdlen, P, verbose, force)"""
    IN, INLEN, OUT, OUTLEN, PASS, LEN, P = 0, 1, 2, 3, 4, 5, 6

    def start(self, E, st):
        self.n = ("s", ("arg", self.INLEN), 64)

    def hdr(self, E, st):
        if E.decide(st, T.mkcmp("uge", self.n, C(96, 64))) != 1:
            return None
        return [("blob", ("init", ("arg", self.IN)), i, 1) for i in range(96)]

    def hdr7(self, E, st):
        if E.decide(st, T.mkcmp("uge", self.n, C(7, 64))) != 1:
            return None
        return [("blob", ("init", ("arg", self.IN)), i, 1) for i in range(7)]

    def pre(self, E, st, I, fn, a):
        self.setup_pre(E, st, I, fn, a)
        if fn == "crypto_aesctr_stream":
            self.ctr_key(E, st, I, a[0])
            E.cx.ob("cipher calls followed")
            if "sig" not in st.mon.get("auth", ()):
                E.report(st, "ORDER", I, "data is decrypted before the header signature was "
                         "verified")
            if E.toptr(a[1]) != ("p", ("arg", self.IN), C(96, 64)) or \
                    E.toptr(a[2]) != arg(self.OUT) or \
                    a[3] != T.sub(self.n, C(128, 64), 64) or st.mon.get("ctr"):
                E.report(st, "STREAM", I, "the cipher is not applied once to exactly the "
                         "input bytes between the header and the authentication tag")
            st.mon["ctr"] = 1

    def post(self, E, st, I, fn, a, ret, tag):
        self.setup_post(E, st, I, fn, a, ret, tag)

    def final_verify(self, E, st, I, a, n, x, y):
        if n != 32:
            return
        last = ("p", ("arg", self.IN), T.sub(self.n, C(32, 64), 64))
        for p, c in ((E.toptr(a[0]), y), (E.toptr(a[1]), x)):
            d = fmt.hmac_over(c) if c else None
            if p == last and d is not None and len(d) == 3 and \
                    d[2][:3] == ("var", arg(self.IN), T.sub(self.n, C(32, 64), 64)):
                if self.mac_key(E, st, I, d):
                    return "final"
        return None

    def access(self, E, st, I, p, n, kind):
        if kind == "store" and p[0] == "p" and p[1] == ("arg", self.OUT):
            if "sig" not in st.mon.get("auth", ()):
                E.report(st, "ORDER", I, "the output buffer is written before the header "
                         "signature was verified")

    def ret(self, E, st, val):
        if E.decide(st, T.mkcmp("eq", val, C(0, 32))) == 0:
            return
        E.cx.ob("successful returns")
        if "final" not in st.mon.get("auth", ()):
            E.report(st, "AUTH", E.entry.name, "success is returned without the authentication "
                     "tag having been compared with the MAC of everything before it")
        if not st.mon.get("ctr"):
            E.report(st, "STREAM", E.entry.name, "success is returned without decrypting")
        ol = E.load(st, arg(self.OUTLEN), 8)
        if ol != T.sub(self.n, C(128, 64), 64):
            E.report(st, "STREAM", E.entry.name, "the reported output length is not the input "
                     "length minus 128")


class FilePrep(DecSetup):
    """scryptdec_file_prep(infile, passwd, passwdlen, P, verbose, force, cookie)"""
    IN, PASS, LEN, P, COOKIE = 0, 1, 2, 3, 6

    def hdr(self, E, st):
        h = st.mon.get("file", ())
        return list(h) if len(h) == 96 else None

    def hdr7(self, E, st):
        h = st.mon.get("file", ())
        return list(h[:7]) if len(h) >= 7 else None

    def pre(self, E, st, I, fn, a):
        self.setup_pre(E, st, I, fn, a)

    def post(self, E, st, I, fn, a, ret, tag):
        self.setup_post(E, st, I, fn, a, ret, tag)
        if fn == "fread" and E.toptr(a[3]) == arg(self.IN):
            n = E.constval(st, T.mul(a[1], a[2], 64))
            E.cx.ob("input reads followed")
            cur = st.mon.get("file", ())
            if tag == "full" and n is not None and len(cur) + n <= 96 and \
                    st.mon.get("in") is None:
                st.mon["file"] = cur + tuple(fmt.content(E, st, a[0], n))
            elif tag == "full":
                E.report(st, "HEADER", I, "more than the 96 header bytes are read before the "
                         "header was verified")
            else:
                st.mon["in"] = tag

    def ret(self, E, st, val):
        if E.decide(st, T.mkcmp("eq", val, C(0, 32))) == 0:
            return
        E.cx.ob("successful returns")
        if "sig" not in st.mon.get("auth", ()):
            E.report(st, "ORDER", E.entry.name, "success is returned although the header "
                     "signature (which proves the passphrase) was not verified")
            return
        c = E.load(st, arg(self.COOKIE), 8)
        c = E.toptr(c)
        st.mon["cookie"] = c
        # what scryptdec_file_copy() is handed
        ob = st.mem.get(c[1])
        h = self.hdr(E, st)
        found = {"hdr": None, "dk": None, "in": None}
        if ob is not None and ob.size:
            for off in range(0, ob.size - 7):
                b = fmt.blist(ob.content(off, 1))
                if off + 96 <= ob.size and b[0] == h[0] and \
                        fmt.blist(ob.content(off, 96)) == h:
                    found["hdr"] = off
                if off + 64 <= ob.size and fmt.kdf_bytes(0, 64,
                                                         fmt.blist(ob.content(off, 64))):
                    found["dk"] = off
                if off % 8 == 0 and ob.content(off, 8) == ((8, arg(self.IN)),):
                    found["in"] = off
        E.cx.ob("cookies inspected")
        for k, what in (("hdr", "the verified header"), ("dk", "the derived key"),
                        ("in", "the input stream")):
            if found[k] is None:
                E.report(st, "STREAM", E.entry.name, "the state handed to the copy step does "
                         "not hold " + what)
        E.cx.cookie = (found["in"], found["hdr"], found["dk"], ob.size if ob else None)


class FileCopy(DecSetup):
    """scryptdec_file_copy(cookie, outfile) on a cookie laid out as FilePrep found it.

    The input not yet decrypted is a window [ptr, ptr+len) in memory: reads append to it,
    hashing and decrypting a prefix consumes it, moves may relocate it."""
    OUT = 1
    WP, WL = 0, 1

    def __init__(self, layout):
        self.layout = layout

    def setup(self, E, st):
        o_in, o_hdr, o_dk, size = self.layout
        from engine import Obj
        ob = Obj(size, ("init", ("arg", 0)))
        self.F = ("p", ("ext", "file", "infile"), ZERO)
        self.h = ("blob", ("bl", 0, "prep", "rd"), 0, 96)
        self.k = ("blob", ("bl", 0, "prep", "dk"), 0, 64)
        st.alive.add(self.h[1])
        st.alive.add(self.k[1])
        ob = ob.write(o_in, 8, self.F).write(o_hdr, 96, self.h).write(o_dk, 64, self.k)
        st.mem[("arg", 0)] = ob
        E.gset(st, self.WL, C(0, 64))

    def win(self, E, st):
        return E.gget(st, self.WP), E.gget(st, self.WL)

    def pre(self, E, st, I, fn, a):
        if fn == "crypto_aesctr_stream":
            self.ctr_key(E, st, I, a[0])
            E.cx.ob("cipher calls followed")
            k = st.mon.setdefault("aes", E.toptr(a[0]))
            if k != E.toptr(a[0]):
                E.report(st, "STREAM", I, "the data is decrypted with more than one key stream")
            if zero(E, st, a[3]):
                return
            if st.mon.get("dec"):
                E.report(st, "STREAM", I, "decrypted bytes that were not written are left "
                         "behind when more is decrypted")
            p, l = self.win(E, st)
            if p is None or E.toptr(a[1]) != p or \
                    E.decide(st, T.mkcmp("ule", a[3], l)) != 1:
                E.report(st, "STREAM", I, "the bytes given to the cipher are not the next "
                         "bytes of the input")
                return
            if st.mon.get("hm") != (p, a[3]):
                E.report(st, "STREAM", I, "bytes are decrypted that were not authenticated as "
                         "exactly that block")
            st.mon.pop("hm", None)
            nl = T.sub(l, a[3], 64)
            if E.decide(st, T.mkcmp("uge", nl, C(32, 64))) != 1:
                E.report(st, "STREAM", I, "fewer than 32 bytes are held back from decryption: "
                         "the authentication tag may be treated as data")
            E.gset(st, self.WP, T.add(p, a[3], 64))
            E.gset(st, self.WL, nl)
            self.cur = (p, a[3])
        elif fn == "HMAC_SHA256_Update":
            if zero(E, st, a[2]):
                return
            p, l = self.win(E, st)
            src = E.toptr(a[1])
            c = E.toptr(a[0])
            if p is not None and src[1] == p[1]:
                m = st.mon.get("mctx")
                if m is not None and m != c:
                    E.report(st, "STREAM", I, "the input is authenticated by more than one "
                             "MAC computation")
                if src != p or E.decide(st, T.mkcmp("ule", a[2], l)) != 1 or \
                        st.mon.get("hm"):
                    E.report(st, "STREAM", I, "the bytes given to the MAC are not the next "
                             "bytes of the input")
                st.mon["hm"] = (src, a[2])
                st.mon["mctx"] = c
            else:
                b = None
                n = E.constval(st, a[2])
                if n == 96:
                    b = fmt.content(E, st, a[1], 96)
                if b == fmt.blist(((96, self.h),)) and not st.mon.get("mctx"):
                    st.mon["mhdr"] = c
                    st.mon["mctx"] = c
                else:
                    E.report(st, "STREAM", I, "the MAC over the file is fed bytes that are "
                             "neither the header nor the next bytes of the input")
        elif fn == "fwrite" and E.toptr(a[3]) == arg(self.OUT):
            n = total(E, st, a[1], a[2])
            if zero(E, st, n):
                return
            d = st.mon.get("dec")
            E.cx.ob("plaintext writes")
            if d is None or d[0] != E.toptr(a[0]) or not eq(E, st, d[1], n):
                E.report(st, "STREAM", I, "the bytes written are not exactly the bytes just "
                         "decrypted")
            st.mon.pop("dec", None)
        elif fn == "fread" and E.toptr(a[3]) == self.F:
            if st.mon.get("dec") or st.mon.get("hm"):
                E.report(st, "STREAM", I, "a block that was read is neither decrypted and "
                         "written nor kept")
            p, l = self.win(E, st)
            if not (p is None or zero(E, st, l)) and \
                    E.toptr(a[0]) != E.toptr(T.add(p, l, 64)):
                if E.decide(st, T.mkcmp("eq", l, C(0, 64))) != 1 and not (
                        E.toptr(a[0])[1] == p[1] and
                        eq(E, st, E.toptr(a[0])[2], T.add(p[2], l, 64))):
                    E.report(st, "STREAM", I, "input is not read right behind the bytes held "
                             "back so far")
            if p is None or zero(E, st, l):
                E.gset(st, self.WP, E.toptr(a[0]))
        elif fn.startswith(("llvm.memmove", "llvm.memcpy")) or fn in ("memmove", "memcpy"):
            p, l = self.win(E, st)
            if p is not None and E.toptr(a[1]) == p and eq(E, st, a[2], l):
                self.moved = E.toptr(a[0])

    def post(self, E, st, I, fn, a, ret, tag):
        self.setup_post(E, st, I, fn, a, ret, tag)
        if fn == "crypto_aesctr_stream" and tag != "inlined":
            if not zero(E, st, a[3]):
                st.mon["dec"] = (E.toptr(a[2]), a[3])
        elif fn == "fread" and E.toptr(a[3]) == self.F:
            E.cx.ob("input reads followed")
            st.mon["in"] = {"full": "more", "eof": "eof", "err": "err"}[tag]
            p, l = self.win(E, st)
            E.gset(st, self.WL, T.add(l, T.mul(a[1], ret, 64), 64))
        elif (fn.startswith(("llvm.memmove", "llvm.memcpy")) or fn in ("memmove", "memcpy")) \
                and tag != "inlined":
            if getattr(self, "moved", None) is not None:
                E.gset(st, self.WP, self.moved)
                self.moved = None

    def hdr(self, E, st):
        return None

    def hdr7(self, E, st):
        return None

    def final_verify(self, E, st, I, a, n, x, y):
        p, l = self.win(E, st)
        if n != 32 or p is None:
            return None
        for q, c in ((E.toptr(a[0]), y), (E.toptr(a[1]), x)):
            d = fmt.hmac_over(c) if c else None
            if d is None or q != p:
                continue
            if E.decide(st, T.mkcmp("eq", l, C(32, 64))) != 1:
                continue
            data = d[2] if len(d) > 2 else ()
            body = data[1:] if data and data[0] == "bytes" else \
                data[2:] if data and data[0] == "bigdata" else ()
            if list(body[:96]) != fmt.blist(((96, self.h),)):
                continue
            if self.mac_key(E, st, I, d) and not st.mon.get("hm"):
                return "final"
        return None

    def ret(self, E, st, val):
        if E.decide(st, T.mkcmp("eq", val, C(0, 32))) == 0:
            return
        E.cx.ob("successful returns")
        if "final" not in st.mon.get("auth", ()):
            E.report(st, "AUTH", E.entry.name, "success is returned without the last 32 input "
                     "bytes having been compared with the MAC of everything before them")
        if st.mon.get("in") != "eof":
            E.report(st, "AUTH", E.entry.name, "success is returned although the input was "
                     "not read up to its end")
        if st.mon.get("dec"):
            E.report(st, "STREAM", E.entry.name, "success is returned although decrypted "
                     "bytes were not written")
