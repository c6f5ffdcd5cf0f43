"""Memory: ownership of resources, bounds of accesses, lifetime of secrets."""
import models as M
import mons
import terms as T
from checklib import settled
from engine import Outcome
from terms import C
from . import check
from . import kdf
from .core import ENGINE

HASH = ("alg/sha256.c",)
AES = ("crypto/crypto_aes",)

# function -> models (groups), lazily initialised modules taken as initialised, sizes of
# argument buffers for the bounds check
G = (M.CRYPTO, M.UTIL, M.CORE, M.LAYERS)
FUNCS = [
    ("scryptenc_file", G, (), {}),
    ("scryptenc_buf", G, (), {0: (1, 0), 2: (1, 128), 3: (4, 0)}),
    ("scryptdec_buf", G, (), {0: (1, 0), 2: (1, 0), 4: (5, 0), 3: 8}),
    ("scryptdec_file_prep", G, (), {}),
    ("scryptdec_file_copy", G, (), {}),
    ("scryptdec_file", G, (), {}),
    ("scryptdec_file_cookie_free", G, (), {}),
    ("scryptdec_file_printparams", G, (), {}),
    ("scryptenc_cpuperf", G, (), {}),
    ("memtouse", G, (), {}),
    ("crypto_scrypt", G, ("crypto/crypto_scrypt.c",), {7: (8, 0)}),
    ("crypto_aes_key_expand", (M.UTIL,), AES, {}),
    ("crypto_aes_key_free", (M.UTIL,), AES, {}),
    ("crypto_aesctr_alloc", (M.UTIL,), AES, {}),
    ("crypto_aesctr_init", (M.UTIL,), AES, {}),
    ("crypto_aesctr_free", (M.UTIL,), AES, {}),
    ("crypto_aesctr_stream", (M.UTIL,), AES, {0: 48, 3: "len"}),
    ("crypto_entropy_read", (M.CRYPTO, M.UTIL), (), {}),
    ("generate", (M.CRYPTO, M.UTIL), (), {0: (1, 0)}),
    ("entropy_read", (M.UTIL,), (), {0: (1, 0)}),
    ("crypto_verify_bytes", (), (), {0: (2, 0), 1: (2, 0)}),
    ("insecure_memzero_func", (), (), {0: (1, 0)}),
    ("readpass", (M.UTIL,), (), {}),
    ("readpass_file", (M.UTIL,), (), {}),
    ("passphrase_entry_parse", (M.UTIL,), (), {}),
    ("passphrase_entry_readpass", (M.UTIL,), (), {}),
    ("humansize", (), (), {}),
    ("humansize_parse", (), (), {}),
    ("asprintf", (), (), {}),
    ("monoclock_get", (M.UTIL,), (), {}),
    ("monoclock_getres", (M.UTIL,), (), {}),
    ("warnp_setprogname", (), (), {}),
    ("warn", (), (), {}),
    ("warnx", (), (), {}),
    ("scryptenc_print_error", (), (), {}),
    ("SHA256_Init", (M.TRANSFORM, M.UTIL), HASH, {0: 104}),
    ("SHA256_Update", (M.TRANSFORM, M.UTIL), HASH, {0: 104, 1: (2, 0)}),
    ("SHA256_Final", (M.TRANSFORM, M.UTIL), HASH, {0: 32, 1: 104}),
    ("SHA256_Buf", (M.TRANSFORM, M.UTIL), HASH, {0: (1, 0), 2: 32}),
    ("HMAC_SHA256_Init", (M.TRANSFORM, M.UTIL), HASH, {0: 208, 1: (2, 0)}),
    ("HMAC_SHA256_Update", (M.TRANSFORM, M.UTIL), HASH, {0: 208, 1: (2, 0)}),
    ("HMAC_SHA256_Final", (M.TRANSFORM, M.UTIL), HASH, {0: 32, 1: 208}),
    ("HMAC_SHA256_Buf", (M.TRANSFORM, M.UTIL), HASH, {0: (1, 0), 2: (3, 0), 4: 32}),
    ("PBKDF2_SHA256", (M.TRANSFORM, M.UTIL), HASH, {0: (1, 0), 2: (3, 0)}),
    ("SHA256_Transform", (M.UTIL,), (), {0: 32, 1: 64, 2: 256, 3: 32}),
    ("SHA256_Transform_sse2", (M.UTIL,), (), {0: 32, 1: 64, 2: 256, 3: 32}),
    ("SHA256_Transform_shani", (M.UTIL,), (), {0: 32, 1: 64}),
]


def sweep(cx, mk):
    n = 0
    for fn, g, mods, sizes in FUNCS:
        if not cx.has(fn):
            continue
        n += 1
        models = M.models(*g, drop=(fn,))
        cx.run(fn, models, mk(fn, sizes),
               setup=lambda E, st: settled(E, st, mods or ("?",)),
               unroll=8 if fn == "humansize" else 0)
    cx.ob("entry points analysed", n)
    cx.need("entry points analysed", 30, "functions whose resources and accesses are checked")


def salsa(E, st, I, a):
    """a 64-byte block is read and written (its own body is analysed elsewhere)"""
    p = E.toptr(a[0])
    for m in E.monitors:
        m.access(E, st, I, p, 64, "load")
        m.access(E, st, I, p, 64, "store")
    return Outcome(st)


def fixed(cx):
    """bounds for given sizes: the mixing functions, and PBKDF2's output"""
    for fn in kdf.MIX:
        if not cx.has(fn):
            continue
        for r, n in ((1, 2), (1, 8), (2, 4), (8, 2), (32, 2)) + \
                (((3, 16), (8, 16)) if cx.tier == "thorough" else ()):
            def setup(E, st):
                E.concrete = 5000
                E.blind = lambda o, size: o[0] == "arg" or (size or 0) >= 64
            cx.run(fn, dict(M.models(M.UTIL), salsa20_8=salsa),
                   [mons.Bounds({0: 128 * r, 3: 128 * r * n, 4: 256 * r + 64})],
                   args=[None, C(r, 64), C(n, 64), None, None], setup=setup)
            cx.ob("sizes analysed")
    for c in (1, 3):
        for n in (0, 1, 31, 32, 33, 64, 65, 128):
            cx.run("PBKDF2_SHA256", M.models(M.TRANSFORM, M.UTIL, M.LAYERS,
                                             drop=("PBKDF2_SHA256",)),
                   [mons.Bounds({0: 9, 2: 32, 5: n})],
                   args=[None, C(9, 64), None, C(32, 64), C(c, 64), None, C(n, 64)],
                   setup=lambda E, st: settled(E, st, HASH))
            cx.ob("sizes analysed")
    cx.need("sizes analysed", 20, "given sizes of work areas and output")


@check("P19", "path-sensitive ownership analysis (acquire/release typestate of heap blocks, "
       "streams, descriptors, mappings, keys)",
       ENGINE + """An ownership monitor follows every block, stream, descriptor, mapping, key
       object and cookie from the call that acquires it: it must be released exactly once by
       the matching function, or handed to the caller, on every returning path, including
       every combination of failing calls, and must not be accessed after its release.""")
def p19(cx):
    cx.rule("OWN: each acquired resource is released exactly once, by the matching function, "
            "or handed to the caller, on every returning path")
    cx.rule("OWN: no access to, second release of, or release of the inside of a released or "
            "unowned object")
    sweep(cx, lambda fn, sizes: [mons.Own()])
    cx.rule("SIZE: what was mapped is unmapped completely")
    for b in kdf.valid("quick"):
        kdf.run(cx, b, [kdf.Shape(cx, b, False, False, True)])
    cx.need("acquisitions", 30, "resources acquired")
    cx.need("releases", 30, "resources released")


@check("P20", "interval and relational bounds analysis of every memory access and library "
       "buffer argument",
       ENGINE + """For every load, store and buffer argument of a library call, the offset and
       length are bounded by intervals and by linear relations to the lengths given by the
       caller, and compared with the size of the object: local and global variables, heap
       blocks (also of computed size), and the buffers whose length is another argument.""",
       ["a buffer given by a caller is as long as the length argument says, and no buffer is "
        "longer than 2^62 bytes",
        "the mixing functions and the output of PBKDF2 are analysed for a number of given "
        "sizes only; not covered: strings from the environment"])
def p20(cx):
    cx.rule("BOUNDS: 0 <= offset and offset + length <= size for every access to an object "
            "of known size")
    sweep(cx, lambda fn, sizes: [mons.Bounds(sizes)])
    cx.rule("SIZE: the mixing function's work areas are B >= 128*r*p, V >= 128*r*N, "
            "XY >= 256*r + 64 bytes")
    for b in list(kdf.valid("quick")) + list(kdf.sizes()):
        kdf.run(cx, b, [kdf.Shape(cx, b, True, False)])
    fixed(cx)
    cx.need("bounded accesses", 10000, "accesses to objects of known size")
