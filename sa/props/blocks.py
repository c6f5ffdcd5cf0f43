"""What the cryptographic functions compute, by value numbering against the standards."""
import time

import engine
import vn
import vnref as R
from vn import Dom, Fault, Undecided, VM, cat, words
from . import check

VN = """The code is evaluated over bit strings of unknowns: each bit is a polynomial over GF(2) in
named unknowns, words have a normal form as sums modulo 2^w, and vector instructions have
reference meanings. Equal expressions thereby get equal values however they are computed, so
that one evaluation decides what the code computes for every content of its inputs. """


class Eval:
    """evaluations of one configuration of the processor's features"""

    FEATURES = ("sse2", "ssse3", "shani", "aesni", "rdrand")

    def __init__(self, cx, features=(), contracts=(), dom=None):
        self.cx = cx
        self.D = dom or Dom()
        self.features = features
        self.contracts = dict(contracts)
        for f in self.FEATURES:
            v = self.D.const(int(f in features), 32)
            self.contracts["cpusupport_x86_%s_detect_1" % f] = lambda vm, I, a, v=v: v
            self.contracts["cpusupport_x86_" + f] = lambda vm, I, a, v=v: v

    def run(self, where, what, body, rule):
        """body(vm) -> list of (what, got, wanted), on each way data can go"""
        cx = self.cx
        t = time.time()
        todo = [([], 1)]
        n = 0
        asked = False
        while todo:
            d, b = todo.pop()
            vm = VM(cx.prog(), self.D, self.contracts)
            vm.decisions = d
            vm.bytes = b
            n += 1
            try:
                res = body(vm)
            except Fault as e:
                cx.violation(rule, getattr(e, "where", None) or where,
                             "%s: %s" % (what, e.args[0]))
                res = []
            cx.steps += vm.steps
            cx.funcs |= {"%s (%s)" % (engine.cname(f.name), f.module.path)
                         for f in vm.funcs}
            for w, got, want in res:
                cx.ob("values compared")
                if got != want:
                    cx.violation(rule, where, "%s: %s%s" % (
                        what, difference(self.D, w, got, want),
                        " (on one of the ways that a branch on data can go)"
                        if vm.taken else ""))
            for i in range(len(d), len(vm.taken)):
                todo.append(([v for _, v in vm.taken[:i]] + [1 - vm.taken[i][1]], b))
            if vm.asked and not asked:
                # what the code does may depend on where its arguments are
                asked = True
                todo.extend([([], 0), ([], 8), ([], 16)])
            if n + len(todo) > 64:
                raise Undecided("%s: too many branches on data" % where)
        cx.paths += n
        if len(cx.runs) < 400:
            cx.runs.append({"function": where, "config": cx.config, "case": what,
                            "features": list(self.features),
                            "seconds": round(time.time() - t, 3)})


def difference(D, w, got, want):
    if not isinstance(got, tuple) or not isinstance(want, tuple) or len(got) != len(want):
        return "%s is %r instead of %r" % (w, got, want)
    for i in range(0, len(got), 8):
        if got[i:i + 8] != want[i:i + 8]:
            if -1 in got[i:i + 8]:
                return "byte %d of %s is not set" % (i // 8, w)
            return "byte %d of %s is %s instead of %s" % (
                i // 8, w, D.show(got[i:i + 8]), D.show(want[i:i + 8]))
    return "%s differs" % w


def buf(vm, name, n):
    return vm.new(name, n, "in")


def const(vm, n, w=64):
    return vm.D.const(n, w)


# -- SHA-256 --------------------------------------------------------------------------------------

SETS = ((), ("sse2",), ("sse2", "ssse3", "shani"))


def present(cx, features):
    """whether the analysed configuration has code for one of these features"""
    return not features or any(cx.has("cpusupport_x86_%s_detect_1" % f) for f in features)


def digest(cx, vm, n, name="data"):
    p = buf(vm, name, n)
    d = vm.new("digest", 32)
    vm.call(cx.func("SHA256_Buf"), [p, const(vm, n), d])
    return vm.get(p, n), vm.get(d, 32)


@check("P28", "value numbering of each SHA-256 block function against FIPS 180-4",
       VN + "SHA256_Buf() is followed into each implementation, with the processor's features "
       "as the case.",
       ["the vector instructions do what Intel's manual says",
        "message lengths are those listed; the contents are arbitrary"])
def p28(cx):
    hashes(cx)
    cx.need("values compared", 7, "hashes compared")


def hashes(cx, light=False):
    cx.rule("SHA-256: each byte of the hash equals, as an expression over the bytes of the "
            "message, the one of FIPS 180-4, for each set of processor features")
    for fs in SETS:
        if not present(cx, fs):
            continue
        E = Eval(cx, fs)
        for n in (48, 64) if light else (0, 3, 55, 56, 64, 119, 120) + (
                (128, 200, 300) if cx.tier == "thorough" else ()):
            def body(vm):
                msg, got = digest(cx, vm, n)
                return [("hash", got, R.sha256(vm.D, msg))]
            E.run("SHA256_Buf", "hash of %d bytes with %s" % (n, "+".join(fs) or "portable code"),
                  body, "hash")
        cx.ob("feature sets")
    if light:
        return
    for name, n in (("SHA256_Transform_shani", 2), ("SHA256_Transform_sse2", 4)):
        if not cx.has(name) or len(cx.func(name).params) != n:
            continue
        E = Eval(cx)

        def body(vm):
            s, b = buf(vm, "state", 32), buf(vm, "block", 64)
            want = R.sha_block(vm.D, vm.get(s, 32), vm.get(b, 64))
            vm.call(name, ([s, b, vm.new("W", 256, "undef", 16), vm.new("S", 32, "undef", 16)])[:n])
            return [("state", vm.get(s, 32), want)]
        E.run(name, "one block of any message", body, "hash")
        cx.ob("vector block functions")


# -- scrypt's mixing ----------------------------------------------------------------------------

@check("P29", "value numbering of each mixing function against RFC 7914",
       VN + "Reads of V at a position that depends on the data are the choice among all "
       "positions it can be, for small N.",
       ["the vector instructions do what Intel's manual says",
        "N is at most 16 here, r at most 8, or 131 with the Salsa20/8 core as a function "
        "symbol; N, r are loop bounds and sizes in this code"])
def p29(cx):
    mixing(cx)
    largemixing(cx)
    cx.need("mixings", 6, "mixing functions compared")


def mixing(cx, light=False):
    cx.rule("ROMix: each byte of B afterwards equals, as an expression over B, that of "
            "scryptROMix in RFC 7914")
    sizes = [(1, 2), (1, 4), (2, 4), (3, 2), (1, 16), (4, 2), (8, 2)]
    if light:
        sizes = [(1, 4), (2, 2)]
    elif cx.tier == "thorough":
        sizes += [(8, 8), (5, 4), (16, 2), (1, 64), (7, 2), (2, 32), (32, 2)]
    for r, N in sizes:
        D = Dom()
        for name in ("crypto_scrypt_smix", "crypto_scrypt_smix_sse2"):
            if not cx.has(name):
                continue
            E = Eval(cx, ("sse2",), dom=D)

            def body(vm):
                B = vm.new("B", 128 * r, "in", 64)
                V = vm.new("V", 128 * r * N, "undef", 64)
                XY = vm.new("XY", 256 * r + 64, "undef", 64)
                want = R.romix(D, vm.get(B, 128 * r), r, N)
                vm.call(name, [B, const(vm, r), const(vm, N), V, XY])
                return [("B", vm.get(B, 128 * r), want)]
            E.run(name, "r=%d, N=%d" % (r, N), body, "mixing")
            cx.ob("mixings")


def core(cx, name):
    """functions in name's file which are the Salsa20/8 core -> {function name: order of words}"""
    M = cx.func(name).module
    out = {}
    for f in M.funcs.values():
        if f.decl or len(f.params) != 1 or f.name == name:
            continue
        for order in ([i for i in range(16)], [i * 5 % 16 for i in range(16)]):
            D = Dom()
            vm = VM(cx.prog(), D)
            try:
                b = buf(vm, "B", 64)
                w = R.words(vm.get(b, 64))
                x = [None] * 16
                for i, k in enumerate(order):
                    x[k] = w[i]
                want = R.salsa(D, x)
                vm.call(f, [b])
                if vm.get(b, 64) == R.cat([want[k] for k in order]):
                    out[f.name.split(".llvm")[0]] = order
                    break
            except (Fault, Undecided):
                break
    return out


def largemixing(cx):
    """block sizes beyond the usual ones, in terms of the Salsa20/8 core, which mixing() covers"""
    cx.rule("ROMix with large r: each byte of B afterwards equals, as an expression over B and "
            "the Salsa20/8 core, that of scryptROMix")
    for name in ("crypto_scrypt_smix", "crypto_scrypt_smix_sse2"):
        if not cx.has(name):
            continue
        fns = core(cx, name)
        if not fns:
            # the core is not a function of its own: evaluated as it is
            cases = [(32, 2)]
        else:
            cases = [(32, 2), (131, 2)] if cx.tier != "thorough" else \
                [(32, 2), (67, 2), (129, 4), (300, 2), (1025, 2)]
        for r, N in cases:
            D = Dom()

            def F(D, b):
                return R.words(D.fn("S", (R.cat(b),), 512))

            def put(order):
                def contract(vm, I, a):
                    w = R.words(vm.get(a[0], 64))
                    x = [None] * 16
                    for i, k in enumerate(order):
                        x[k] = w[i]
                    y = F(vm.D, x)
                    vm.put(a[0], R.cat([y[k] for k in order]))
                return contract
            E = Eval(cx, ("sse2",), {f: put(o) for f, o in fns.items()}, D)

            def body(vm):
                vm.maxsteps = 1 << 30
                B = vm.new("B", 128 * r, "in", 64)
                V = vm.new("V", 128 * r * N, "undef", 64)
                XY = vm.new("XY", 256 * r + 64, "undef", 64)
                want = R.romix(D, vm.get(B, 128 * r), r, N, F if fns else R.salsa)
                vm.call(name, [B, const(vm, r), const(vm, N), V, XY])
                return [("B", vm.get(B, 128 * r), want)]
            E.run(name, "r=%d, N=%d" % (r, N), body, "mixing")
            cx.ob("mixings with large r")


# -- hashes of messages of any length, in terms of the block function ---------------------------

TRANSFORMS = ("SHA256_Transform",)


def opaque(D):
    """the block function as an uninterpreted function: contract, and reference"""
    used = []

    def F(D, s, b):
        return D.fn("F", (s, b), 256)

    def contract(vm, I, a):
        used.append(1)
        vm.put(a[0], F(D, vm.get(a[0], 32), vm.get(a[1], 64)))
        # scratch space is left with something in it
        for p, n in zip(a[2:], (256, 32)):
            vm.storebytes(p, [vn.UNDEF8] * n)
    return {n: contract for n in TRANSFORMS}, F, used


def hashing(cx):
    """evaluator with the block function opaque if it can be found, else in full"""
    D = Dom()
    con, F, used = opaque(D)
    if not all(cx.has(n) and block_function(cx, n) for n in TRANSFORMS):
        con, F = {}, R.sha_block
        cx.notes.append("the block function was not found by name; it is evaluated in full, "
                        "for few lengths")
    E = Eval(cx, (), con, D)
    E.full = not con
    E.used = used
    return E, F


def block_function(cx, name):
    """does this function only take pointers, to the state, the block and scratch space?"""
    f = cx.prog().func(name)
    return 2 <= len(f.params) <= 4 and all(str(t) == "ptr" for _, t in f.params)


class Stop(Exception):
    pass


def countfield(cx, E, init, update):
    """where the count of bits is kept: the only eight bytes that become 8 after a byte"""
    vm = VM(cx.prog(), E.D, E.contracts)
    c = vm.new("context", 512, "undef", 8)
    vm.call(init, [c])
    vm.call(update, [c, buf(vm, "x", 1), const(vm, 1)])
    o = vm.objs[c[1]]
    want = E.D.const(8, 64)
    hit = [i for i in range(0, 504, 8)
           if all(i + k in o.mem for k in range(8)) and
           cat(o.mem[i + k] for k in range(8)) == want]
    return hit[0] if len(hit) == 1 else None


@check("P34", "value numbering of the streaming code against FIPS 180-4's padding and blocks",
       VN + "The block function is an uninterpreted function here.",
       ["lengths are those listed; the contents are arbitrary"])
def p34(cx):
    streaming(cx)
    cx.need("messages", 30, "messages followed")


def streaming(cx, light=False):
    cx.rule("streaming: the result of Init, Update ..., Final is, as an expression over the "
            "bytes given, the iteration of the block function over them with the standard's "
            "padding, however they are split between updates")
    E, F = hashing(cx)
    few = [0]

    def skip(size):
        """in full, only some of the messages, and short ones"""
        few[0] += 1
        return E.full and (size > 300 or few[0] % 37)
    init, upd, fin = (cx.func("SHA256_" + x) for x in ("Init", "Update", "Final"))

    def seq(lens, start=0):
        if skip(sum(lens)):
            return

        def body(vm):
            D = vm.D
            c = vm.new("context", 512, "undef", 8)
            vm.call(init, [c])
            msg = ()
            for i, n in enumerate(lens):
                p = buf(vm, "data%d" % i, n)
                vm.call(upd, [c, p, const(vm, n)])
                msg += vm.get(p, n)
            d = vm.new("digest", 32)
            vm.call(fin, [d, c])
            cx.ob("messages")
            return [("hash", vm.get(d, 32), R.sha256(D, msg, F))]
        E.run("SHA256_Update", "message in pieces of %s bytes" % "+".join(map(str, lens)),
              body, "streaming")
    for r in (0, 1, 16, 32, 63) if light else range(64):
        rest = {0, 1, 2, 55, 56, 57, 63, 64, 65, 127, 128, 129, 200}
        for b in (56, 64, 120, 128, 192):
            rest |= {b - r - 1, b - r, b - r + 1}
        if cx.tier == "thorough":
            rest |= set(range(0, 200))
        for n in sorted(x for x in rest if x >= 0):
            seq((r, n))
    for lens in ((), (0,), (1,) * 130, (64, 64, 64), (63, 1, 63, 1), (0, 64, 0), (7,) * 20,
                 (100, 28, 128, 1, 55), (55, 0, 1), (1000,), (3, 61, 64, 3)):
        seq(lens)
    for n in (0, 48, 55, 56, 64, 120) if light else range(0, 130):
        def body(vm):
            msg, got = digest(cx, vm, n)
            cx.ob("messages")
            return [("hash", got, R.sha256(vm.D, msg, F))]
        if not skip(n):
            E.run("SHA256_Buf", "message of %d bytes" % n, body, "streaming")
    # lengths that need more than 32 bits, by setting the count
    at = countfield(cx, E, init, upd)
    if at is None:
        cx.notes.append("the field that counts was not found; long messages are not covered")
    else:
        for big in (1 << 23, (1 << 32) + (1 << 20), (1 << 54) + 3):
            for r, n in ((0, 0), (5, 64), (63, 3), (40, 130)):
                def body(vm):
                    D = vm.D
                    c = vm.new("context", 512, "undef", 8)
                    vm.call(init, [c])
                    s = F(D, cat(D.const(x, 32) for x in R.IV), D.named("first block", 512))
                    pre = vm.new("s", 64)
                    vm.put(pre, D.named("first block", 512))
                    vm.call(upd, [c, pre, const(vm, 64)])
                    vm.put(vm.padd(c, const(vm, at)), D.const(big * 512, 64))
                    m = ()
                    for k, x in enumerate((r, n)):
                        p = buf(vm, "data%d" % k, x)
                        vm.call(upd, [c, p, const(vm, x)])
                        m += vm.get(p, x)
                    d = vm.new("digest", 32)
                    vm.call(fin, [d, c])
                    total = big * 512 + len(m)
                    m += D.const(0x80, 8)
                    m += (0,) * (-(len(m) + 64) % 512)
                    m += R.bswap(D.const(total, 64))
                    for i in range(0, len(m), 512):
                        s = F(D, s, m[i:i + 512])
                    return [("hash", vm.get(d, 32), cat(R.bswap(w) for w in words(s)))]
                E.run("SHA256_Update", "message of %d+%d+%d bytes" % (big * 64, r, n), body,
                      "streaming")
                cx.ob("long messages")
        # one call with more than 32 bits' worth, up to the first block, if the count is
        # brought up to date before the blocks
        def counted(n):
            def stop(vm, I, a):
                raise Stop()
            vm = VM(cx.prog(), E.D, dict(E.contracts, **{t: stop for t in TRANSFORMS}))
            c = vm.new("context", 512, "undef", 8)
            vm.call(init, [c])
            try:
                vm.call(upd, [c, vm.new("data", n), const(vm, n)])
            except Stop:
                return E.D.num(vm.get(vm.padd(c, const(vm, at)), 8))
            return None
        if counted(200) == 1600:
            for n in ((1 << 29) + 5, (1 << 31) + 64, (1 << 32) + 7, (1 << 35) + 1, (1 << 40) + 3):
                k = counted(n)
                cx.ob("long messages")
                if k != 8 * n:
                    cx.violation("streaming", "SHA256_Update", "%d bytes in one call are counted "
                                 "as %s bits" % (n, k))


class Leap:
    """carries a loop forward: what grows by the same amount each time round is set to what it
    would be many rounds later, and the rest is left as it is"""

    def __init__(self, vm, used, per, at=None, rounds=0):
        self.vm, self.used, self.per, self.at, self.rounds = vm, used, per, at, rounds
        self.seen = {}
        self.snaps = []
        self.count = None
        vm.onblock = self.visit

    def visit(self, f, blk, env):
        key = (f, blk.idx)
        if self.at is None:
            self.seen.setdefault((key, id(env)), (env, []))[1].append(len(self.used))
        elif key == self.at:
            self.snaps.append((dict(env), {k: dict(o.mem) for k, o in self.vm.objs.items()}))
            if len(self.snaps) == 4 and self.count is None:
                self.count = len(self.used)
                self.jump(env, *self.snaps[1:])
                del self.snaps[:]
            elif self.count is not None and len(self.snaps) == 4:
                raise Stop()

    def header(self):
        """the block that starts each round"""
        for (key, _), (_, n) in self.seen.items():
            if len(n) >= 6 and all(b - a == self.per for a, b in zip(n, n[1:])):
                return key
        return None

    def jump(self, env, *snaps):
        D, n = self.vm.D, self.rounds
        for k in list(env):
            v = [s[0].get(k) for s in snaps]
            if v[0] is None or v[0] == v[1]:
                continue
            if all(x[0] == "p" and isinstance(x[2], int) for x in v):
                d = v[2][2] - v[1][2]
                if v[0][1] == v[1][1] == v[2][1] and v[1][2] - v[0][2] == d:
                    env[k] = ("p", v[2][1], v[2][2] + n * d)
            elif not any(x[0] in ("p", "f", "fp", "agg") for x in v):
                x = affine([D.num(y) for y in v], len(v[0]), n)
                if x is not None:
                    env[k] = D.const(x, len(v[0]))
        for k, o in self.vm.objs.items():
            m = [s[1].get(k) for s in snaps]
            if None in m or m[0] == m[1]:
                continue
            for i in sorted({i & ~7 for i in m[2] if m[1].get(i) != m[2][i]}):
                for size in (8, 4, 2, 1):
                    done = True
                    for j in range(i, i + 8, size):
                        v = [[x.get(j + q, ()) for q in range(size)] for x in m]
                        if v[0] == v[1] == v[2]:
                            continue
                        if any(len(b) != 8 for x in v for b in x):
                            done = False
                            break
                        x = affine([D.num(cat(y)) for y in v], 8 * size, n)
                        if x is None:
                            done = False
                            break
                        b = D.const(x, 8 * size)
                        for q in range(size):
                            o.mem[j + q] = b[8 * q:8 * q + 8]
                    if done:
                        break


def affine(v, bits, n):
    if None in v or (v[1] - v[0] - v[2] + v[1]) % (1 << bits):
        return None
    return (v[2] + n * (v[2] - v[1])) % (1 << bits)


def far_blocks(cx, E, F, used):
    """PBKDF2's blocks far into its output, with 8 bytes of password and 4 of salt"""
    D = E.D
    pb = cx.func("PBKDF2_SHA256")

    def prepare(n):
        vm = VM(cx.prog(), D, E.contracts)
        p, s, o = buf(vm, "password", 8), buf(vm, "salt", 4), vm.new("key", n)
        return vm, p, s, o, [p, const(vm, 8), s, const(vm, 4), const(vm, 1), o, const(vm, n)]
    vm, *_, args = prepare(32 * 8)
    del used[:]
    L = Leap(vm, used, 2)
    vm.call(pb, args)
    before = len(used) - 16
    at = L.header()
    if at is None:
        raise Undecided("PBKDF2_SHA256(): no loop with one block of output each time round")

    def block(k):
        """is block k, and what follows it, right?"""
        vm, p, s, o, args = prepare(32 * k + 8)
        del used[:]
        first = -(-(L.seen_first - before) // 2)
        J = Leap(vm, used, 2, at, k - 1 - (first + 3))
        end = "end"
        try:
            vm.call(pb, args)
        except Stop:
            end = "no end"
        if J.count is None or (J.count - before) != 2 * (first + 3):
            raise Undecided("PBKDF2_SHA256(): its rounds differ")
        return [("key from block %d on" % k, vm.get(vm.padd(o, const(vm, 32 * (k - 1))), 40),
                 cat(R.hmac(D, vm.get(p, 8), vm.get(s, 4) + R.bswap(D.const(i, 32)), F)
                     for i in (k, k + 1))[:320]), ("end", end, "end")]
    L.seen_first = next(n[0] for (key, _), (_, n) in L.seen.items() if key == at)
    if any(got != want for _, got, want in block(300)):
        raise Undecided("PBKDF2_SHA256(): the effect of many rounds is not linear")
    for k in (255, 1 << 16, (1 << 16) + 77, 1 << 24, (1 << 27) + 1, (1 << 31) + 5, (1 << 32) - 2):
        def body(vm, k=k):
            return block(k)
        E.run("PBKDF2_SHA256", "password of 8 bytes, salt of 4, %d bytes" % (32 * k + 8), body,
              "pbkdf2")
        cx.ob("far blocks")


@check("P35", "value numbering of HMAC and PBKDF2 against RFC 2104 and RFC 8018",
       VN + "The block function is an uninterpreted function here.",
       ["lengths and iteration counts are those listed; the contents are arbitrary"])
def p35(cx):
    codes(cx)
    derivations(cx)
    cx.need("codes", 15, "codes compared")
    cx.need("derivations", 3, "derivations compared")


def codes(cx, light=False):
    cx.rule("HMAC: the result is, as an expression over key and message, that of RFC 2104, "
            "whichever functions are used and however the message is split")
    E, F = hashing(cx)
    D = E.D
    few = [0]

    def skip(size):
        few[0] += 1
        return E.full and (size > 300 or few[0] % 23)
    hi, hu, hf, hb = (cx.func("HMAC_SHA256_" + x) for x in ("Init", "Update", "Final", "Buf"))

    def hmac(kn, lens, whole):
        if skip(sum(lens) + kn):
            return

        def body(vm):
            k = buf(vm, "key", kn)
            d = vm.new("mac", 32)
            msg = ()
            if whole:
                p = buf(vm, "data", lens[0])
                vm.call(hb, [k, const(vm, kn), p, const(vm, lens[0]), d])
                msg = vm.get(p, lens[0])
            else:
                c = vm.new("context", 1024, "undef", 8)
                vm.call(hi, [c, k, const(vm, kn)])
                for i, n in enumerate(lens):
                    p = buf(vm, "data%d" % i, n)
                    vm.call(hu, [c, p, const(vm, n)])
                    msg += vm.get(p, n)
                vm.call(hf, [d, c])
            cx.ob("codes")
            return [("code", vm.get(d, 32), R.hmac(D, vm.get(k, kn), msg, F))]
        E.run("HMAC_SHA256_Buf" if whole else "HMAC_SHA256_Final",
              "key of %d bytes, message of %s" % (kn, "+".join(map(str, lens))), body, "hmac")
    for kn in (32, 48, 65) if light else list(range(0, 131)) + [200, 256, 1000]:
        hmac(kn, (13,), True)
        hmac(kn, (5, 8), False)
    for n in (0, 16, 64, 96, 129, 1000) if light else list(range(0, 131)) + [256, 1000]:
        hmac(32, (n,), True)
        hmac(32, (n // 3, 0, n - n // 3), False)
        hmac(32, (96, n), False)


def derivations(cx, light=False):
    cx.rule("PBKDF2: each output byte is, as an expression over password and salt, that of RFC "
            "8018 with HMAC-SHA256")
    E, F = hashing(cx)
    D = E.D
    few = [0]

    def skip(size):
        few[0] += 1
        return E.full and (size > 300 or few[0] % 23)
    pb = cx.func("PBKDF2_SHA256")

    def pbkdf2(pn, sn, c, n):
        if skip(c * (n + 32) + sn + pn):
            return

        def body(vm):
            p = buf(vm, "password", pn)
            s = buf(vm, "salt", sn)
            o = vm.new("key", n)
            vm.call(pb, [p, const(vm, pn), s, const(vm, sn), const(vm, c), o, const(vm, n)])
            cx.ob("derivations")
            return [("key", vm.get(o, n), R.pbkdf2(D, vm.get(p, pn), vm.get(s, sn), c, n, F))]
        E.run("PBKDF2_SHA256", "password of %d bytes, salt of %d, %d iterations, %d bytes" % (
            pn, sn, c, n), body, "pbkdf2")
    if not E.full:
        try:
            far_blocks(cx, E, F, E.used)
        except (Undecided, KeyError) as e:
            cx.notes.append("outputs of more than 10000 bytes are not covered: %s" % e)
    if light:
        for pn, sn, n in ((0, 0, 64), (8, 32, 33), (65, 5, 128), (64, 100, 100), (8, 1024, 64)):
            pbkdf2(pn, sn, 1, n)
        return
    for pn in (0, 1, 8, 63, 64, 65, 130):
        for sn in (0, 1, 8, 32, 51, 52, 55, 59, 60, 61, 64, 100):
            pbkdf2(pn, sn, 1, 32)
    for n in list(range(0, 70)) + [95, 96, 97, 128, 1024]:
        pbkdf2(8, 32, 1, n)
    for c in (2, 3, 4, 10):
        for n in (1, 32, 33, 64, 100):
            pbkdf2(8, 32, c, n)
    pbkdf2(8, 1024, 1, 64)
    pbkdf2(8, 1024 * 3, 1, 64)
    pbkdf2(8, 32, 1, 32 * 257 + 5)
    if cx.tier == "thorough":
        pbkdf2(3, 4, 1000, 33)
        pbkdf2(3, 4, 1, 32 * 66000)


# -- AES-CTR ---------------------------------------------------------------------------------------

def openssl(D, limit=None):
    """OpenSSL's functions: expansion keeps the key, encryption is a function of both"""
    keys = {}

    def setkey(vm, I, a):
        n = D.num(a[1])
        if n not in (128, 256):
            return D.const((1 << 32) - 2, 32)
        k = vm.get(a[0], n // 8)
        vm.put(a[2], D.fn("OpenSSL key", (k,), 244 * 8))
        keys[D.names[("OpenSSL key", k)]] = k
        return (0,) * 32

    def encrypt(vm, I, a):
        k = keys.get(vm.get(a[2], 244))
        if k is None:
            raise Fault("AES_encrypt() with something that is not an expanded key")
        vm.put(a[1], aes(D, k, vm.get(a[0], 16)))
    return {"AES_set_encrypt_key": setkey, "AES_encrypt": encrypt}


def aes(D, k, b):
    """one block; AES as a function of key and block unless both are numbers"""
    x, y = D.num(k), D.num(b)
    if x is not None and y is not None:
        return R.aes(D, R.aes_expand(D, k), b)
    return D.fn("AES", (k, b), 128)


def full(D, k, b):
    return R.aes(D, R.aes_expand(D, k), b)


def keystream(D, block, k, nonce, start, n):
    out = []
    ks = None
    for i in range(start, start + n):
        if ks is None or i % 16 == 0:
            ks = block(D, k, R.bswap(nonce) + R.bswap(D.const(i // 16, 64)))
        out.extend(ks[8 * (i % 16):8 * (i % 16) + 8])
    return tuple(out)


@check("P30", "value numbering of AES-CTR (and of AES with AES-NI) against SP 800-38A and FIPS 197",
       VN + "OpenSSL's AES is an uninterpreted function of key and block; with AES-NI the round "
       "instructions are, and key expansion and the order of rounds are compared with FIPS 197.",
       ["OpenSSL's AES is correct; the AES instructions do what Intel's manual says",
        "lengths, splits and positions are those listed; key, nonce and data are arbitrary"])
def p30(cx):
    ctr(cx)
    cx.need("stream calls", 500, "calls of the cipher followed")
    cx.need("blocks", 2, "blocks")


def ctr(cx, light=False):
    cx.rule("CTR: byte i of the output stream is byte i of the input xor byte i mod 16 of "
            "AES(key, nonce || i / 16) in big-endian order, however the stream is split, for "
            "each implementation and in place or not")
    cx.rule("AES-NI: the round keys and the result equal those of FIPS 197")
    expand, free = cx.func("crypto_aes_key_expand"), cx.func("crypto_aes_key_free")
    init, stream = cx.func("crypto_aesctr_init"), cx.func("crypto_aesctr_stream")
    sfree, whole = cx.func("crypto_aesctr_free"), cx.func("crypto_aesctr_buf")
    block1 = cx.func("crypto_aes_encrypt_block")
    for fs in ((), ("aesni",)):
        if not present(cx, fs):
            continue
        D = Dom()
        E = Eval(cx, fs, openssl(D), D)
        block = full if fs else aes
        kind = "with " + ("AES-NI" if fs else "OpenSSL")
        at = [None]

        def prepare(vm, kn):
            k = buf(vm, "key", kn)
            ek = vm.call(expand, [k, const(vm, kn)])
            nonce = D.named(("in", "nonce", 0), 64)
            return vm.get(k, kn), ek, nonce

        def pieces(lens, kn=32, inplace=False, start=0, oneshot=False):
            def body(vm):
                k, ek, nonce = prepare(vm, kn)
                res = []
                if oneshot:
                    s = None
                else:
                    s = vm.call(init, [ek, nonce])
                    if start:
                        vm.put(vm.padd(s, const(vm, at[0])), D.const(start, 64))
                pos = start
                for i, n in enumerate(lens):
                    p = buf(vm, "data%d" % i, n)
                    data = vm.get(p, n)
                    o = p if inplace else vm.new("out%d" % i, n)
                    if oneshot:
                        vm.call(whole, [ek, nonce, p, o, const(vm, n)])
                    else:
                        vm.call(stream, [s, p, o, const(vm, n)])
                    cx.ob("stream calls")
                    res.append(("output", vm.get(o, n), D.xor(
                        data, keystream(D, block, k, nonce, pos, n))))
                    pos += n
                if s is not None:
                    vm.call(sfree, [s])
                vm.call(free, [ek])
                return res
            E.run("crypto_aesctr_buf" if oneshot else "crypto_aesctr_stream",
                  "stream from byte %d on in pieces of %s, %s" % (
                      start, "+".join(map(str, lens)) if len(lens) < 12 else
                      "%d and so on" % lens[0], kind), body, "ctr")
        for residue in (0, 8):
            def body(vm):
                vm.residue = residue
                res = []
                for kn in (16, 32):
                    k, ek, _ = prepare(vm, kn)
                    p = buf(vm, "block", 16)
                    o = vm.new("out", 16)
                    vm.call(block1, [p, o, ek])
                    res.append(("block", vm.get(o, 16), block(D, k, vm.get(p, 16))))
                    vm.call(block1, [p, p, ek])
                    res.append(("block in place", vm.get(p, 16), vm.get(o, 16)))
                    vm.call(free, [ek])
                    cx.ob("blocks")
                return res
            E.run("crypto_aes_encrypt_block", "one block " + kind, body, "aes")
        thorough = cx.tier == "thorough"
        names = ["crypto_aes_key_expand_aesni", "crypto_aes_encrypt_block_aesni",
                 "crypto_aes_key_free_aesni"]
        if fs and all(cx.has(n) for n in names):
            for kn in (16, 32):
                def body(vm):
                    k, p, o = buf(vm, "key", kn), buf(vm, "block", 16), vm.new("out", 16)
                    ek = vm.call(names[0], [k, const(vm, kn)])
                    vm.call(names[1], [p, o, ek])
                    vm.call(names[2], [ek])
                    return [("block", vm.get(o, 16), full(D, vm.get(k, kn), vm.get(p, 16)))]
                E.run(names[1], "one block with AES-NI, key of %d bytes" % kn, body, "aes")
        if light:
            for lens in ((0,), (1, 15, 17, 32), (40, 40), (16, 5), (3, 100, 64, 9),
                         (1,) * 34, (16 * 258, 20)):
                pieces(lens)
                pieces(lens, inplace=True)
            pieces((1000,), oneshot=True)
            continue
        for a in range(0, 18) if not thorough else range(0, 34):
            for b in (16 - a % 16, 17) if not thorough else range(0, 66):
                pieces((a, b, 5))
        for a in (1, 8, 15, 16, 17, 33):
            for b in (0, 1, 2, 15, 16, 32, 15 - a % 16, 31 - a % 16, 32 - a % 16, 33 - a % 16):
                pieces((a, b, 5))
        for lens in ((1,) * 40, (3, 16, 13, 32, 1, 64), (100, 100, 100), (16, 16, 16),
                     (5, 32, 5), (15, 17, 15, 17), (0, 0, 3, 0, 20)):
            pieces(lens)
            pieces(lens, 16, True)
        for n in list(range(0, 35)) + [47, 48, 49, 100]:
            pieces((n,), oneshot=True)
        # across the bytes of the counter
        pieces((16,) * 258, 16)
        pieces((16 * 255 + 3, 13, 15, 1, 40), 16)
        pieces((16 * 254, 48, 7), inplace=True)
        pieces((1, 16 * 520, 5), 16)
        pieces((7,) * 600, 16)
        # far positions: writing the position into a new stream has the effect of getting there
        # if that is so for a position near the beginning (which the above compares as it is)
        at[0] = position(cx, E, expand, init, stream)
        n0 = len(cx.viols)
        if at[0] is not None and not n0:
            for k in (1, 3):
                pieces((40, 5, 16), start=k * 4096)
        if at[0] is None or n0 or len(cx.viols) > n0:
            if not n0:
                cx.viols.clear()
            cx.notes.append("the position in the stream cannot be set from outside; "
                            "positions beyond 10000 are not covered")
        else:
            for k in (1 << 8, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 36, 1 << 44, 1 << 51):
                pieces((40, 5, 16, 9), 16, start=k * 4096)
                pieces((40, 5, 16, 9), 16, start=(k - 1) * 4096)
                cx.ob("far positions")
            for k in (1 << 8, 1 << 20, 1 << 28, 1 << 51):
                pieces((1, 16 * 257), 16, start=(k - 1) * 4096)


def parts(cx, *what):
    """some lengths of what another property rests on (its own check has all of them)"""
    for f in what:
        before = set(cx.viols)
        try:
            f(cx, light=True)
        except (Undecided, engine.AnalysisBroken) as e:
            cx.notes.append("%s() was not decided (%s); see the check of its own property" % (
                f.__name__, e))
            for k in set(cx.viols) - before:
                del cx.viols[k]


def position(cx, E, expand, init, stream):
    """where the position in the stream is kept: the eight bytes that become 1, 2, 3"""
    hit = None
    for n in (1, 2, 3):
        vm = VM(cx.prog(), E.D, E.contracts)
        s = vm.call(init, [vm.call(expand, [buf(vm, "key", 32), const(vm, 32)]),
                           E.D.named("nonce", 64)])
        vm.call(stream, [s, buf(vm, "x", n), vm.new("o", n), const(vm, n)])
        o = vm.objs[s[1]]
        h = {i for i in range(0, o.size - 7, 8) if all(len(o.mem.get(i + k, ())) == 8
                                                       for k in range(8)) and
             cat(o.mem[i + k] for k in range(8)) == E.D.const(n, 64)}
        hit = h if hit is None else hit & h
    return hit.pop() if len(hit) == 1 else None
