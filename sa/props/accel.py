"""Accelerated code is used only where the processor has it and its self-test passes."""
import hashlib
import random

import vn
import vnref as R
from vn import Dom, Fault, Undecided, VM, cat, words
from . import check
from .blocks import buf, const, openssl, aes

BITS = {"sse2": (1, 3, 26), "ssse3": (1, 2, 9), "aesni": (1, 2, 25), "rdrand": (1, 2, 30),
        "shani": (7, 1, 29)}
# which feature an instruction belongs to, by the name of its intrinsic
NEEDS = (("llvm.x86.aesni.", "aesni"), ("llvm.x86.sha256", "shani"),
         ("llvm.x86.ssse3.", "ssse3"), ("llvm.x86.rdrand", "rdrand"))
ONES = (1 << 32) - 1


class Aborted(Exception):
    pass


class CPU:
    """what CPUID says: the features of a set, every other bit being set (or random)"""

    def __init__(self, features, maxleaf=7, rnd=None):
        self.features = set(features)
        self.maxleaf = maxleaf
        self.rnd = rnd

    def cpuid(self, leaf, sub):
        if leaf == 0:
            return [self.maxleaf, 0x756e6547, 0x6c65746e, 0x49656e69]
        if leaf == 0x80000000:
            return [0x80000008, 0, 0, 0]
        regs = [ONES if self.rnd is None else self.rnd.getrandbits(32) for _ in range(4)]
        if leaf > self.maxleaf and leaf < 0x80000000:
            return [ONES] * 4
        if leaf == 7 and sub != 0:
            return [ONES] * 4
        for f, (l, r, b) in BITS.items():
            if l == leaf:
                regs[r] &= ~(1 << b)
                if f in self.features:
                    regs[r] |= 1 << b
        return regs


def asm_cpuid(cpu):
    def h(vm, I, a):
        text = I.callee[1]
        if "cpuid" not in text:
            raise Undecided("assembly")
        cons = text.rsplit('"', 2)[1].split(",")
        ins = [c for c in cons if not c.startswith(("=", "~"))]
        vals = {"0": None, "2": None}
        for c, v in zip(ins, a):
            vals[{"a": "0", "{ax}": "0", "c": "2", "{cx}": "2"}.get(c, c)] = vm.D.num(v)
        if vals["0"] is None:
            raise Undecided("CPUID of an unknown leaf")
        regs = cpu.cpuid(vals["0"], vals["2"])
        outs = [c for c in cons if c.startswith("=")]
        order = {"={ax}": 0, "=a": 0, "={bx}": 1, "=b": 1, "=r": 1, "={cx}": 2, "=c": 2,
                 "={dx}": 3, "=d": 3}
        if not all(c in order for c in outs):
            raise Undecided("operands of CPUID")
        return ("agg", [vm.D.const(regs[order[c]], 32) for c in outs])
    return h


class Machine:
    """evaluations on one processor, which records the instructions executed"""

    def __init__(self, cx, cpu, contracts=()):
        self.cx, self.cpu = cx, cpu
        self.D = D = Dom()
        self.used = set()

        def abort(vm, I, a):
            raise Aborted()
        con = {"asm": asm_cpuid(cpu), "abort": abort, "__assert_fail": abort}
        con.update(openssl(D))
        for name, h in vn.BUILTIN.items():
            for pre, f in NEEDS:
                if name.startswith(pre):
                    con[name] = self.watch(f, h)
        con["llvm.x86.rdrand.32"] = self.watch(
            "rdrand", lambda vm, I, a: ("agg", [D.named(("rdrand", vm.steps), 32),
                                                 D.const(1, 32)]))
        con.update(contracts)
        self.vm = VM(cx.prog(), D, con)

    def watch(self, feature, h):
        def g(vm, I, a):
            self.used.add(feature)
            return h(vm, I, a)
        return g

    def end(self):
        cx = self.cx
        cx.steps += self.vm.steps
        cx.funcs |= {"%s (%s)" % (f.name, f.module.path) for f in self.vm.funcs}


def hashed(M, msg):
    vm = M.vm
    p = vm.new("data", len(msg))
    vm.put(p, vm.D.const(int.from_bytes(msg, "little"), 8 * len(msg)))
    d = vm.new("digest", 32)
    vm.call(M.cx.func("SHA256_Buf"), [p, const(vm, len(msg)), d])
    n = vm.D.num(vm.get(d, 32))
    return n is not None and n.to_bytes(32, "little") == hashlib.sha256(msg).digest()


def encrypted(M, kn):
    """whether AES and AES-CTR give the right values with a key of this length"""
    vm, D, cx = M.vm, M.D, M.cx
    k = vm.new("key", kn)
    key = D.const(int.from_bytes(bytes(range(7, 7 + kn)), "little"), 8 * kn)
    vm.put(k, key)
    ek = vm.call(cx.func("crypto_aes_key_expand"), [k, const(vm, kn)])
    data = D.const(int.from_bytes(bytes(range(100, 148)), "little"), 48 * 8)
    p, o = vm.new("data", 48), vm.new("out", 48)
    vm.put(p, data)
    vm.call(cx.func("crypto_aes_encrypt_block"), [p, o, ek])
    ok = vm.get(o, 16) == aes(D, key, data[:128])
    vm.call(cx.func("crypto_aesctr_buf"), [ek, D.const(5, 64), p, o, const(vm, 48)])
    ks = cat(aes(D, key, R.bswap(D.const(5, 64)) + R.bswap(D.const(i, 64))) for i in range(3))
    ok = ok and vm.get(o, 48) == D.xor(data, ks)
    vm.call(cx.func("crypto_aes_key_free"), [ek])
    return ok


def random_bytes(M):
    vm = M.vm
    o = vm.new("random", 40)
    vm.call(M.cx.func("crypto_entropy_read"), [o, const(vm, 40)])


def entropy(vm, I, a):
    n = vm.D.num(a[1])
    vm.put(a[0], vm.D.const(12345, 8 * n))
    return (0,) * 32


def flip(vm, p, k):
    """damage a byte"""
    q = vm.padd(p, const(vm, k))
    vm.put(q, vm.D.xor(vm.get(q, 1), vm.D.const(0x10, 8)))


def salsa_number(b):
    x = list(b)

    def qr(a, b, c, d):
        for t, u, v, n in ((b, a, d, 7), (c, b, a, 9), (d, c, b, 13), (a, d, c, 18)):
            s = (x[u] + x[v]) & ONES
            x[t] ^= (s << n | s >> (32 - n)) & ONES
    for _ in range(4):
        for q in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11),
                  (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)):
            qr(*q)
    return [(p + q) & ONES for p, q in zip(b, x)]


def romix_number(B, r, N):
    X = [[int.from_bytes(B[64 * i + 4 * j:64 * i + 4 * j + 4], "little") for j in range(16)]
         for i in range(2 * r)]

    def mix(B):
        x = B[-1]
        Y = []
        for b in B:
            x = salsa_number([p ^ q for p, q in zip(x, b)])
            Y.append(x)
        return Y[0::2] + Y[1::2]
    V = []
    for _ in range(N):
        V.append(X)
        X = mix(X)
    for _ in range(N):
        j = (X[-1][0] | X[-1][1] << 32) % N
        X = mix([[p ^ q for p, q in zip(a, b)] for a, b in zip(X, V[j])])
    return b"".join(w.to_bytes(4, "little") for b in X for w in b)


@check("P31", "evaluation on each kind of processor, with each implementation working or broken",
       """CPUID is the input: the detection and everything that depends on it is evaluated for
       processors with each set of features, all other bits being set, and the vector
       instructions that are reached are recorded. Self-tests are evaluated with
       implementations that are wrong in one byte; results must then still be right.""",
       ["an implementation that is wrong on the inputs of its self-test is wrong in one byte "
        "of its result, or with one length of key"])
def p31(cx):
    cx.rule("detection: a feature is reported only if the processor has the leaf and the bit "
            "of CPUID that mean it")
    cx.rule("gating: an instruction is executed only on a processor that has it")
    cx.rule("self-test: an implementation that computes something wrong is not used; if none "
            "is right, the program stops")
    if not any(cx.has("cpusupport_x86_%s_detect_1" % f) for f in BITS):
        cx.notes.append("configuration %s has no accelerated code" % cx.config)
        return
    detection(cx)
    gating(cx)
    sha(cx)
    aes_selftest(cx)
    smix(cx)
    cx.need("processors", 60, "processors asked for features")
    cx.need("sets of features", 8, "sets of features run with")


def detection(cx):
    for f, (leaf, reg, bit) in BITS.items():
        name = "cpusupport_x86_%s_detect_1" % f
        if not cx.has(name):
            cx.notes.append("no detection of %s by its name" % f)
            continue
        others = set(BITS) - {f}
        cpus = [("every bit but its own", CPU(others, 31)),
                ("leaf %d missing" % leaf, CPU(set(BITS), leaf - 1))]
        if leaf == 7:
            cpus += [("leaves up to %d" % k, CPU(set(BITS), k)) for k in range(7)]
        cpus += [("random bits but its own", CPU(
            {g for g in others if random.Random(str((f, i, g))).random() < .5}, 13,
            random.Random(str((f, i))))) for i in range(12)]
        for what, cpu in cpus:
            M = Machine(cx, cpu)
            if M.D.num(M.vm.call(cx.func(name), [])) != 0:
                cx.violation("detection", name, "%s is reported on a processor with %s" %
                             (f, what))
            M.end()
            cx.ob("processors")
    # the functions that remember what was detected
    for f in BITS:
        for g in cx.prog().allfuncs:
            if g.name == "cpusupport_x86_" + f and not g.params and not g.decl:
                M = Machine(cx, CPU(set(BITS) - {f}))
                if any(M.D.num(M.vm.call(g, [])) != 0 for _ in range(3)):
                    cx.violation("detection", "%s (%s)" % (g.name, g.module.path),
                                 "%s is reported, the first or a later time, on a processor "
                                 "without it" % f)
                M.end()
                cx.ob("processors")


def tell(s):
    return "+".join(sorted(s)) or "no features"


def gating(cx):
    """each set of features that matters, for each user"""
    def both(*vary):
        rest = set(BITS) - set(vary)
        for m in range(1 << len(vary)):
            s = {v for i, v in enumerate(vary) if m >> i & 1}
            yield s | rest
            if len(vary) < 3:
                yield s

    def once(fs, what, body, contracts=()):
        M = Machine(cx, CPU(fs), contracts)
        try:
            for _ in range(2):
                if body(M) is False:
                    cx.violation("gating", what, "wrong result on a processor with %s" % tell(fs))
        except (Aborted, Fault) as e:
            cx.violation("gating", what, "on a processor with %s: the program stops %s" % (
                tell(fs), " ".join(map(str, e.args))))
        if M.used - fs:
            cx.violation("gating", what, "executes %s instructions on a processor with %s" % (
                tell(M.used - fs), tell(fs)))
        for f in M.used:
            cx.ob("uses of " + f)
        M.end()
        cx.ob("sets of features")
    for fs in both("sse2", "ssse3", "shani"):
        once(fs, "SHA256_Buf", lambda M: hashed(M, b"abc"))
    for fs in both("aesni"):
        once(fs, "crypto_aes_key_expand, crypto_aesctr_buf",
             lambda M: encrypted(M, 16) and encrypted(M, 32))
    if cx.has("crypto_entropy_read") and cx.has("entropy_read"):
        def opaque(vm, I, a):
            vm.put(a[-1], vm.D.named(("mac", vm.steps), 256))
        for fs in both("rdrand"):
            once(fs, "crypto_entropy_read", random_bytes,
                 {"entropy_read": entropy, "HMAC_SHA256_Buf": opaque,
                  "SHA256_Transform": lambda vm, I, a: vm.put(
                      a[0], vm.D.named(("hash", vm.steps), 256))})


def sha(cx):
    """wrong block functions"""
    def broken(M, name, k):
        g = cx.func(name)

        def h(vm, I, a):
            vm.call(g, a)
            if k is not None:
                flip(vm, a[0], k)
        return h
    vec = [n for n in ("SHA256_Transform_shani", "SHA256_Transform_sse2") if cx.has(n)]
    for n in vec:
        for k in [0, 3, 4, 16, 28, 31] + (list(range(32)) if cx.tier == "thorough" else []):
            for rest in ((), [x for x in vec if x != n]):
                M = Machine(cx, CPU(set(BITS)))
                for x in [n] + list(rest):
                    M.vm.contracts[x] = broken(M, x, k)
                outcome(cx, M, "SHA256_Buf", lambda: hashed(M, b"abc") and hashed(M, b""),
                        "%s being wrong in byte %d" % (" and ".join([n] + list(rest)), k))
    # wrong instructions
    M = Machine(cx, CPU(set(BITS)))
    real = M.vm.contracts["llvm.x86.sha256rnds2"]
    M.vm.contracts["llvm.x86.sha256rnds2"] = lambda vm, I, a: vm.D.xor(
        real(vm, I, a), vm.D.const(1 << 77, 128))
    outcome(cx, M, "SHA256_Buf", lambda: hashed(M, b"abc"), "the SHA instructions being wrong")


def outcome(cx, M, where, body, what, stops=False):
    try:
        ok = body()
        if stops:
            cx.violation("self-test", where, "the program goes on with " + what)
        elif not ok:
            cx.violation("self-test", where, "the result is wrong with " + what)
    except Aborted:
        if not stops:
            cx.violation("self-test", where, "the program stops with " + what)
    except Fault as e:
        cx.violation("self-test", where, "%s with %s" % (e.args[0], what))
    M.end()
    cx.ob("broken implementations")


def aes_selftest(cx):
    for which in ((10,), (14,), (10, 14)):
        for k in (0, 5, 15):
            M = Machine(cx, CPU(set(BITS)))
            count = [0]
            enc = M.vm.contracts["llvm.x86.aesni.aesenc"]
            last = M.vm.contracts["llvm.x86.aesni.aesenclast"]

            def e(vm, I, a, enc=enc, count=count):
                count[0] += 1
                return enc(vm, I, a)

            def l(vm, I, a, last=last, count=count):
                n, count[0] = count[0] + 1, 0
                r = last(vm, I, a)
                return vm.D.xor(r, vm.D.const(1 << (8 * k), 128)) if n in which else r
            M.vm.contracts["llvm.x86.aesni.aesenc"] = e
            M.vm.contracts["llvm.x86.aesni.aesenclast"] = l
            outcome(cx, M, "crypto_aes_key_expand, crypto_aesctr_buf",
                    lambda: encrypted(M, 16) and encrypted(M, 32),
                    "the AES instructions being wrong in byte %d after %s rounds" % (
                        k, " and ".join(map(str, which))))
    # OpenSSL wrong
    for k in (0, 15):
        M = Machine(cx, CPU(set()))
        real = M.vm.contracts["AES_encrypt"]

        def e(vm, I, a):
            real(vm, I, a)
            flip(vm, a[1], k)
        M.vm.contracts["AES_encrypt"] = e
        outcome(cx, M, "crypto_aes_key_expand",
                lambda: encrypted(M, 32), "OpenSSL's AES being wrong in byte %d" % k, True)


def smix(cx):
    names = ["crypto_scrypt_smix", "crypto_scrypt_smix_sse2"]
    if not all(cx.has(n) for n in names) or not cx.has("crypto_scrypt"):
        cx.notes.append("the mixing functions were not found by name; their choice is not decided")
        return

    def number(vm, p, n):
        return vm.D.num(vm.get(p, n)).to_bytes(n, "little") if n else b""

    def kdf(vm, I, a):
        pn, sn, c, n = (vm.D.num(a[i]) for i in (1, 3, 4, 6))
        r = hashlib.pbkdf2_hmac("sha256", number(vm, a[0], pn), number(vm, a[2], sn), c, n)
        vm.put(a[5], vm.D.const(int.from_bytes(r, "little"), 8 * n))
    for sse2 in (0, 1):
        for bad in ((), (0,), (1,), (0, 1)):
            for k in (0, 5, 64, 99, 127):
                def mixing(i):
                    def h(vm, I, a):
                        if i and not sse2:
                            raise Fault("the SSE2 code is used on a processor without it")
                        r, N = vm.D.num(a[1]), vm.D.num(a[2])
                        b = bytearray(romix_number(number(vm, a[0], 128 * r), r, N))
                        if i in bad:
                            b[k] ^= 4
                        vm.put(a[0], vm.D.const(int.from_bytes(b, "little"), 1024 * r))
                    return h
                M = Machine(cx, CPU(set(BITS) - (set() if sse2 else {"sse2"})), {
                    "PBKDF2_SHA256": kdf, names[0]: mixing(0), names[1]: mixing(1),
                    "mmap": lambda vm, I, a: vm.new("V", vm.D.num(a[1]), "undef", 4096),
                    "munmap": lambda vm, I, a: (0,) * 32,
                    "strlen": strlen})
                vm = M.vm

                def body():
                    p, s, o = (vm.new(n, z) for n, z in (("password", 5), ("salt", 7),
                                                          ("key", 40)))
                    vm.put(p, vm.D.const(0x1122334455, 40))
                    vm.put(s, vm.D.const(0x66778899aabbcc, 56))
                    if vm.D.num(vm.call(cx.func("crypto_scrypt"), [
                            p, const(vm, 5), s, const(vm, 7), const(vm, 4), const(vm, 2, 32),
                            const(vm, 3, 32), o, const(vm, 40)])) != 0:
                        raise Fault("the derivation fails")
                    return number(vm, o, 40) == hashlib.scrypt(
                        number(vm, p, 5), salt=number(vm, s, 7), n=4, r=2, p=3, dklen=40)
                usable = 0 not in bad or (sse2 and 1 not in bad)
                outcome(cx, M, "crypto_scrypt", body, "%s, %s" % (
                    "SSE2" if sse2 else "no SSE2", " and ".join(names[i] for i in bad) +
                    " being wrong in byte %d" % k if bad else "mixing functions right"),
                    not usable)


def strlen(vm, I, a):
    n = 0
    while True:
        c = vm.D.num(vm.get(vm.padd(a[0], const(vm, n)), 1))
        if c is None:
            raise Undecided("strlen")
        if c == 0:
            return const(vm, n)
        n += 1
