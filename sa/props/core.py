"""Properties of the encrypt/decrypt core (lib/scryptenc)."""
import encmon
import models as M
import mons
import terms as T
from checklib import PUBLIC_CORE
from terms import C
from . import check

ENGINE = ("Path-sensitive abstract interpretation of the LLVM IR that clang emits for the "
          "current source: every path from the entry points is followed (loops to a "
          "fixpoint), both outcomes of every undecided branch and of every fallible library "
          "call are taken, and memory contents are tracked symbolically by provenance. ")


def core_models(*drop):
    return M.models(M.CRYPTO, M.UTIL, M.CORE, drop=drop)


def core_run(cx, rules, fenc=True, benc=True, bdec=True, fdec=True):
    """run the encryption/decryption entry points under the protocol monitors, keeping the
    violations of the given rules"""
    before = set(cx.viols)
    if fenc:
        cx.run("scryptenc_file", core_models(), [encmon.FileEnc()])
    if benc:
        cx.run("scryptenc_buf", core_models(), [encmon.BufEnc()])
    if bdec:
        cx.run("scryptdec_buf", core_models(), [encmon.BufDec()])
    if fdec:
        cx.cookie = None
        cx.run("scryptdec_file_prep", core_models(), [encmon.FilePrep()])
        if cx.cookie is None:
            if not any(v.rule in rules for v in cx.viols.values()):
                cx.broken("no decryption cookie handed out by a successful "
                          "scryptdec_file_prep()")
        else:
            m = encmon.FileCopy(cx.cookie)
            cx.run("scryptdec_file_copy", core_models(), [m], setup=m.setup)
    for k, v in list(cx.viols.items()):
        if k not in before and v.rule not in rules:
            del cx.viols[k]


@check("P03", "path-sensitive abstract interpretation with a provenance-tracking "
       "authentication monitor",
       ENGINE + """A monitor records which MAC values are computed over which bytes with
       which key and which are compared with which bytes of the input; at every successful
       return of the decryption entry points the magic, checksum, header MAC and (for the
       data) the MAC over everything before the last 32 bytes must have been compared by
       the constant-time comparison and found equal.""")
def p03(cx):
    cx.rule("AUTH: success of a decryption entry point implies that format magic, header "
            "checksum, header MAC and data MAC were compared with the input and equal")
    cx.rule("STREAM: what is decrypted is exactly what the MAC covers")
    core_run(cx, {"AUTH", "STREAM"}, fenc=False, benc=False)
    from . import blocks, secrets
    secrets.comparison(cx, timed=False)
    blocks.parts(cx, blocks.hashes, blocks.streaming, blocks.codes, blocks.ctr)
    cx.need("successful returns", 3, "successful decryption paths")
    cx.need("verified: sig", 2, "data MAC comparisons")


@check("P06", "path-sensitive abstract interpretation with byte-provenance comparison of "
       "the header against the documented format",
       ENGINE + """Every byte of the 96-byte header that an encryption entry point emits is
       compared, by provenance, with the documented layout: magic, version byte, logN, r and
       p big-endian, the salt, 16 bytes of SHA-256 over bytes 0..47, and HMAC-SHA256 over
       bytes 0..63.""")
def p06(cx):
    cx.rule("FORMAT: all 96 header bytes equal the documented ones by provenance, and "
            "logN/r/p in the header are the values given to the key derivation")
    core_run(cx, {"FORMAT"}, bdec=False, fdec=False)
    from . import blocks
    blocks.parts(cx, blocks.hashes, blocks.streaming, blocks.codes)
    cx.need("headers written", 2, "headers emitted by both encryption entry points")


@check("P07", "path-sensitive abstract interpretation with byte-provenance comparison of "
       "the header fields used for decryption",
       ENGINE + """The decryption entry points must give the key derivation exactly the
       values found at the documented header offsets, after comparing magic, version,
       checksum and parameter ranges.""")
def p07(cx):
    cx.rule("HEADER: parameters and salt given to the key derivation are the documented "
            "header fields")
    core_run(cx, {"HEADER", "KDF"}, fenc=False, benc=False)
    cx.need("key derivations", 2, "key derivations of both decryption entry points")


@check("P08", "path-sensitive abstract interpretation with an encrypt-then-MAC stream "
       "monitor",
       ENGINE + """For encryption every byte read must be encrypted exactly once with one key
       stream, in order, and every byte written must be fed to the one MAC in order after the
       header, with the tag written last; for decryption the MAC covers the ciphertext, not
       the plaintext.""")
def p08(cx):
    cx.rule("STREAM: read -> cipher -> MAC -> write of identical byte ranges in order; tag "
            "over header and whole ciphertext written last")
    core_run(cx, {"STREAM"})
    from . import blocks
    blocks.parts(cx, blocks.streaming, blocks.codes, blocks.ctr)
    cx.need("ciphertext writes", 1, "ciphertext written by scryptenc_file")
    cx.need("authentication tags written", 2, "tags written by both encryption entry points")


@check("P09", "path-sensitive abstract interpretation tracking the origin of the salt",
       ENGINE + """The 32 salt bytes given to the key derivation and stored in the header
       must be exactly those a successful call of the entropy source put there during the
       same encryption.""")
def p09(cx):
    cx.rule("SALT: all 32 salt bytes come from one successful crypto_entropy_read() of this "
            "encryption, unmodified")
    core_run(cx, {"SALT"}, bdec=False, fdec=False)
    from . import blocks, rng
    blocks.parts(cx, rng.requests, rng.system_entropy)
    cx.need("salts", 2, "salts of both encryption entry points")


@check("P10", "path-sensitive abstract interpretation tracking the origin of key bytes",
       ENGINE + """The 64 derived bytes are traced: bytes 0..31 may only key the cipher, with
       nonce 0 and 256-bit key size, and bytes 32..63 may only key the two MACs; the key
       derivation receives the caller's whole passphrase.""")
def p10(cx):
    cx.rule("KEYS: cipher keyed by derived bytes 0..31 (256-bit, nonce 0), MACs keyed by "
            "derived bytes 32..63")
    cx.rule("KDF: passphrase, its length, salt, N=2^logN, r, p reach the key derivation "
            "unchanged; 64 bytes are derived")
    core_run(cx, {"KEYS", "KDF"})
    cx.need("stream ciphers keyed", 4, "cipher set-ups of all four operations")
    cx.need("key derivations", 4, "key derivations of all entry points")
