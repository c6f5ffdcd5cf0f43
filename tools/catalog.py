"""The properties, in the order of properties.jsonl."""
PROPS = []
NOTE = ("Holds for every path of the analysed functions (loops to a fixpoint, both outcomes of "
        "every undecided branch and fallible call). Trusts clang's translation to IR, the "
        "contracts of library functions in sa/models.py and the abstract interpreter itself. ")


VALUES = ("Holds for every content of the data, for the sizes, splits and options listed in the "
          "evidence. Trusts clang's translation to IR, the meanings of vector instructions in "
          "sa/vn.py, the reference in sa/vnref.py and the value numbering itself. ")


def prop(pid, title, statement, over, text, why, files, mech, note="", na=None, state=None,
         observe=None, base=NOTE):
    PROPS.append({
        "id": pid, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over.split(), "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": dict({"files": files.split(),
                         "mechanism": [{"name": a, "where": b} for a, b in mech],
                         "hook_needed": None},
                        **dict(({"state": [{"name": a, "meaning": b, "where": c}
                                           for a, b, c in state]} if state else {}),
                               **({"observe_at": observe} if observe else {}))),
        "note": base + " ".join(note.split()) if not na else "",
        "na": " ".join(na.split()) if na else None})


ENC = "lib/scryptenc/scryptenc.c"

prop("P03", "Decryption succeeds only on data authenticated under the passphrase",
     """Decrypting a file or buffer reports success only if the header magic, its checksum, its
     keyed signature, and the keyed signature over the header and the entire ciphertext have all
     been verified against the input with the key derived from the passphrase. Truncated,
     extended, reordered or altered input is therefore never reported as successfully decrypted,
     and the bytes output are exactly the decryption of the verified ciphertext.""",
     "inputs fault_sequences", "every input file or buffer, passphrase, read chunking and I/O "
     "failure", """The test suite tampers with one byte of one reference file; a missing or
     mis-ranged check (wrong length, wrong bytes, skipped on one path) passes it for every other
     position or chunking.""", ENC + " libcperciva/crypto/crypto_verify_bytes.c",
     [("header checks", ENC + " scryptdec_setup"),
      ("hold back the last 32 bytes and verify", ENC + " scryptdec_file_copy"),
      ("buffer signature check", ENC + " scryptdec_buf")])

prop("P06", "Encrypted output carries the documented header for its own parameters",
     """Every successful encryption emits a header which byte for byte follows the documented
     format: magic, version, log2 N, r and p in big-endian, the salt, the truncated SHA-256
     checksum and the keyed signature over the preceding bytes. The parameters and salt stored
     are the ones the keys of that same encryption were derived with.""",
     "inputs configurations", "every passphrase, parameter choice and data length; file and "
     "buffer encryption",
     """Tests decrypt what the same code encrypted, so writer and reader can drift together; the
     reference-file test covers one parameter set.""", ENC + " FORMAT",
     [("header construction", ENC + " scryptenc_setup"),
      ("big-endian stores", "libcperciva/util/sysendian.h")])

prop("P07", "Decryption uses exactly the parameters and salt stored in the header",
     """Decryption derives its keys from the caller's passphrase and the N, r, p and salt at the
     documented header positions, with the documented width and byte order. Nothing is derived
     before magic, version, checksum and the parameter ranges have been checked.""",
     "inputs", "every header and passphrase",
     """Test files have small parameters whose high-order bytes are zero, so a wrong offset,
     width or order of a rarely used byte goes unnoticed.""", ENC + " FORMAT",
     [("header parsing", ENC + " scryptdec_setup"),
      ("header loading", ENC + " scryptdec_file_load_header")])

prop("P08", "All data is encrypted once, in order, and covered by the final signature",
     """The ciphertext written is the input encrypted exactly once, in order, with one unbroken
     key stream, whatever the sizes in which the input arrives. The final signature covers the
     header and every ciphertext byte in order, is computed over ciphertext rather than
     plaintext, and is the last thing written; decryption treats exactly the last 32 bytes as
     the signature.""",
     "inputs schedules", "every input length and every way in which reads are split",
     """Tests use a few file sizes read from regular files, so short reads and buffer boundaries
     at all offsets are never exercised.""", ENC,
     [("encryption loop", ENC + " scryptenc_file"), ("decryption loop", ENC +
                                                     " scryptdec_file_copy"),
      ("buffer variants", ENC + " scryptenc_buf scryptdec_buf")])

prop("P09", "Every encryption uses a fresh 32-byte random salt",
     """Each encryption operation obtains 32 bytes from the system's random source and uses
     exactly these bytes, all of them and unmodified, as the key-derivation salt stored in the
     header. If they cannot be obtained, the encryption fails.""",
     "inputs histories fault_sequences", "every encryption and every failure of the random "
     "source", """Randomness cannot be observed by comparing a few outputs, and the failure of
     the random source is never injected.""", ENC,
     [("salt generation", ENC + " scryptenc_setup")])

prop("P10", "Encryption and authentication use disjoint halves of the derived key",
     """The key derivation receives the whole passphrase, its exact length, the salt and the
     selected parameters, and yields 64 bytes. The first 32 key the cipher (256-bit key, counter
     starting at nonce 0) and nothing else; the last 32 key the header signature and the data
     signature and nothing else.""",
     "inputs", "every passphrase, parameter set and operation",
     """A symmetric mistake on both sides (e.g. one key for both uses, or a truncated
     passphrase) still round-trips.""", ENC,
     [("key split", ENC + " scryptenc_setup scryptdec_setup")])

prop("P02", "Library functions report success only if every step succeeded",
     """No encryption, decryption, key-derivation, entropy, passphrase-reading, clock or memory
     function of the library reports success if any read, write, allocation, clock, randomness
     or lower-level operation that its result depends on has failed on the way. In particular a
     short or failed write of output is never reported as success.""",
     "inputs fault_sequences", "every input and every combination of failing calls",
     """Tests run with working files, memory and clocks; error branches of system calls are not
     executed at all.""",
     ENC + " lib-platform/crypto/crypto_scrypt.c libcperciva/util/entropy.c "
     "libcperciva/crypto/crypto_entropy.c libcperciva/util/readpass.c",
     [("stream encryption and decryption", ENC + " scryptenc_file scryptdec_file_copy"),
      ("entropy reading", "libcperciva/util/entropy.c entropy_read"),
      ("DRBG", "libcperciva/crypto/crypto_entropy.c crypto_entropy_read")],
     "Failures that are tolerated by design are listed in the evidence's explanation.")

prop("P05", "Errors name their cause",
     """When encryption or decryption fails, the error code returned is the documented one for
     the step that failed (read error, write error, no memory, no clock, no randomness, key
     derivation, memory-limit query, wrong passphrase, corrupt input, unknown version), and
     each code is printed with its own message about that cause.""",
     "inputs fault_sequences", "every failing path",
     """Tests check that bad input is refused, mostly without looking at the code, and never
     make system calls fail.""", ENC + " lib/scryptenc/scryptenc_print_error.c",
     [("error codes", "lib/scryptenc/scryptenc.h"), ("returns", ENC),
      ("messages", "lib/scryptenc/scryptenc_print_error.c")])

prop("P11", "Memory and CPU limits are enforced on decryption, unless forced",
     """Unless the caller forces it, decryption derives the key only if 128*N*r bytes fit into
     the memory limit computed from the caller's maximum and fraction, and 4*N*r*p operations
     fit into the time limit at the measured speed; otherwise it fails with the error naming the
     exceeded limit. When forced, limits never cause failure. Explicit encryption parameters are
     used exactly as given, with a warning if they exceed a limit.""",
     "inputs configurations", "every header, limit setting and machine speed",
     """The outcome depends on machine speed and memory; tests use tiny or huge limits only, on
     which a wrong formula gives the same verdict.""", ENC,
     [("limit checks", ENC + " checkparams"), ("decryption", ENC + " scryptdec_setup"),
      ("encryption", ENC + " scryptenc_setup")],
     "Formulas are compared as monomials; rounding at the exact boundary is not distinguished.")

prop("P12", "Automatic parameters are valid and follow the limits",
     """Without explicit parameters, encryption picks N as the largest power of two allowed by
     the stronger one of the memory and CPU limits, raises the CPU limit to at least 2^15
     operations, chooses p = 1 if CPU-limited and otherwise p as the CPU limit divided by 4*N*r,
     with log2 N within 1..63 and r*p below 2^30.""",
     "inputs configurations", "every limit setting, memory size and machine speed",
     """The choice depends on the machine; tests only check that the result can be decrypted.""",
     ENC, [("choice of parameters", ENC + " pickparams")],
     "Formulas are compared as monomials; floating-point rounding is not modelled.")

prop("P19", "Every resource is released exactly once on every path",
     """Each operation of the library releases whatever it acquired (memory, file mappings,
     files, directory of expanded keys) exactly once on every path, also when a later step
     fails, unless it hands the resource to its caller; nothing is used after it was released,
     and nothing is released twice or released by the wrong function.""",
     "inputs fault_sequences", "every input and every combination of failing calls",
     """Leaks and double releases sit on error branches which no test executes.""",
     ENC + " lib-platform/crypto/crypto_scrypt.c libcperciva/util/readpass.c "
     "libcperciva/crypto/crypto_aesctr.c libcperciva/util/entropy.c lib/util/passphrase_entry.c",
     [("streams and buffers", ENC), ("key derivation", "lib-platform/crypto/crypto_scrypt.c"),
      ("passphrase files", "libcperciva/util/readpass_file.c"),
      ("AES contexts", "libcperciva/crypto/crypto_aes.c")],
     "Ownership is tracked per abstract object (one per allocation site and loop generation).")

prop("P20", "No access outside of a buffer",
     """For every input, no library function reads or writes outside of the buffers it is given
     (of the documented sizes), its own local buffers, or the memory it allocated: headers,
     passphrases, salts, streams of any length, and any block or chunk split.""",
     "inputs", "every input, every length up to 2^62 and every buffer state",
     """Off-by-one accesses seldom crash; the tests' inputs have a few fixed lengths.""",
     ENC + " libcperciva/alg/sha256.c libcperciva/crypto/crypto_aesctr.c "
     "libcperciva/crypto/crypto_entropy.c libcperciva/util/readpass.c",
     [("header parsing", ENC), ("hash buffering", "libcperciva/alg/sha256.c"),
      ("cipher stream", "libcperciva/crypto/crypto_aesctr.c")],
     "The mixing functions and PBKDF2's output for given sizes only; see the evidence's "
     "assumptions.")

prop("P13", "Key derivation parameters are validated; work areas cannot overflow",
     """crypto_scrypt() succeeds only if N is a power of two greater than 1, r and p are
     positive with r*p < 2^30, at most (2^32 - 1)*32 output bytes are requested, and the
     memory sizes computed from them do not overflow; otherwise it fails without deriving
     anything. Valid parameters are never refused. The work areas it allocates hold all that
     it uses: 128*r*p, 128*r*N and 256*r + 64 bytes.""",
     "inputs", "every N, r, p and output length",
     """The interesting values (overflowing products, N with two bits set, 4 GB of blocks)
     need more memory or time than a test has.""",
     "lib-platform/crypto/crypto_scrypt.c",
     [("validation and allocation", "lib-platform/crypto/crypto_scrypt.c "
       "crypto_scrypt_internal")],
     "Ranges of parameters at powers of two (and some other values); not every product r*p.")

prop("P14", "The key derivation has the structure of scrypt",
     """crypto_scrypt() derives p blocks of 128*r bytes by PBKDF2-HMAC-SHA256 with one iteration
     from the whole passphrase and the whole salt, mixes each of the p blocks exactly once with
     N rounds and block size r, and derives the output by PBKDF2-HMAC-SHA256 with one iteration
     from the whole passphrase and all p mixed blocks.""",
     "inputs", "every passphrase, salt, N, r and small p",
     """Encryption and decryption agree on a wrong derivation, and the test vectors cover three
     parameter sets.""",
     "lib-platform/crypto/crypto_scrypt.c",
     [("derivation", "lib-platform/crypto/crypto_scrypt.c crypto_scrypt_internal")],
     "p up to 8 (32 with the thorough tier). Whole derivations and the mixing function are also "
     "compared with RFC 7914 by value numbering, for some sizes (P29 and P35 have more).")

MAIN = "main.c"
prop("P01", "The exit status tells whether the requested operation was completed",
     """The program exits with status 0 only if the operation requested on the command line was
     carried out completely: the input was read to its end, the data verified (decryption), and
     every byte of output written, flushed and closed without error. Every other end gives a
     non-zero status and a diagnostic on standard error; a completed operation gives 0.""",
     "inputs fault_sequences", "every command line and every combination of failing calls",
     """Tests do not make writes, closes, terminals or allocations fail; buffered data that gets
     lost at close time is invisible to them.""", MAIN + " " + ENC,
     [("encrypt/decrypt and clean-up", MAIN + " scrypt_mode_enc_dec"),
      ("info", MAIN + " scrypt_mode_info"), ("exit", MAIN + " main")],
     "A failure to close the input file is only warned about, by design.")

prop("P04", "The output file is untouched until the header and passphrase are verified",
     """When decrypting, the output file is opened (created or truncated) only after the input's
     header was read and its magic, checksum and signature verified with the passphrase. When
     encrypting, only after the input was opened and the passphrase obtained. The info mode
     opens no file for writing. No file is removed, renamed or otherwise altered.""",
     "inputs fault_sequences", "every command line, input "
     "file, passphrase and failing call",
     """A test would have to look for the destruction of an existing output file on each
     failing path.""", MAIN + " " + ENC,
     [("order of steps", MAIN + " scrypt_mode_enc_dec"),
      ("header verification", ENC + " scryptdec_file_prep")])

prop("P25", "The passphrase is read from the selected source",
     """Without option the passphrase is read from the terminal, or standard input if there is
     none, and confirmed when encrypting. -P and --passphrase METHOD:ARG select standard input
     read once, the terminal only, an environment variable or a file; the source named, and no
     other, is used. Standard input as selected by -P or dev:stdin-once is refused when it is
     also the file to process. No passphrase is read in info mode; an unknown method is
     refused.""",
     "inputs configurations", "every option combination and terminal availability",
     """Tests run without a terminal, and use -P or files; the terminal variants and the
     refusals are not exercised.""", MAIN + " lib/util/passphrase_entry.c "
     "libcperciva/util/readpass.c",
     [("options", MAIN + " main"), ("dispatch", "lib/util/passphrase_entry.c"),
      ("streams", "libcperciva/util/readpass.c readpass")])

prop("P26", "Command-line options set exactly their parameters, within their ranges",
     """The first argument alone selects the operation; each option sets exactly its own
     parameter, flags are passed on as given, and parameters without option have their
     documented defaults. --logN takes 10..40, -r 1..32, -p 1..2048, -m above 0 up to 0.5, -t 0
     or more. --logN, -r and -p are only accepted together and when encrypting. Unknown options,
     missing arguments and wrong numbers of operands never reach an operation. The operands are
     the input ('-' for standard input) and the output.""",
     "inputs configurations", "every sequence of up to any length of the options in each pair "
     "(each triple with the thorough tier), in any order, with operands and files in any state",
     """There are too many combinations to sample, and a misplaced assignment only shows when
     two options meet.""", MAIN,
     [("option parsing", MAIN + " main"), ("number parsing",
                                           "libcperciva/util/parsenum.h")],
     "Sequences of options from each pair of options, plus the three explicit parameters.")

prop("P27", "Info mode only displays the header's parameters",
     """In info mode the program reads the header only, asks for no passphrase, derives no key and
     opens no file for writing; it prints to standard error the N, r, p and the memory need
     128*N*r of a header whose magic and version are valid, and fails for anything else.""",
     "inputs", "every input file",
     """The one test file has small parameters, for which truncated or swapped fields can
     look right.""", MAIN + " " + ENC,
     [("info", MAIN + " scrypt_mode_info"), ("display", ENC + " display_params "
                                             "scryptdec_file_printparams")])

RP = "libcperciva/util/readpass.c"
prop("P23", "The terminal's echo and signal handling are always restored",
     """While a passphrase is read from a terminal, echo is off, and the signals HUP, INT, QUIT,
     PIPE, ALRM, TERM, TSTP, TTIN and TTOU are caught. On every return, successful or not, the
     terminal settings and then the signal dispositions are as before, and each signal received
     meanwhile is raised again afterwards, exactly if it was received.""",
     "inputs fault_sequences schedules", "every outcome of terminal and read calls and every "
     "one of the nine signals arriving at any moment",
     """Needs a terminal, failing calls and signals at chosen moments.""", RP,
     [("terminal and signals", RP + " readpass"), ("re-raising", RP + " resetsigs"),
      ("handler", RP + " handle")],
     "Each signal is considered alone and along with all the others.")

prop("P24", "The passphrase used is exactly the one entered",
     """The passphrase given to the key derivation is the line read (or the environment variable)
     in full, cut only at the end of the line, up to 2047 characters; when confirmation is asked
     for, two lines were read and are equal. A passphrase file with more than one line, or a
     line that is too long, is refused.""",
     "inputs", "every passphrase text, source and line ending",
     """Tests use short plain passphrases; a change of rarely used characters or lengths stays
     unseen, and encrypting and decrypting agree on it.""",
     RP + " libcperciva/util/readpass_file.c lib/util/passphrase_entry.c " + MAIN,
     [("line", RP + " readpass"), ("file", "libcperciva/util/readpass_file.c readpass_file"),
      ("length", MAIN + " scrypt_mode_enc_dec")],
     "A terminal or standard input line of more than 2047 characters is cut by fgets().")

SHA = "libcperciva/alg/sha256.c"
WIPES = "libcperciva/util/insecure_memzero.c libcperciva/util/insecure_memzero.h"
prop("P17", "Secrets do not outlive their use in memory",
     """Whenever a local variable or heap block goes out of use, on success and on every failing
     path, it no longer holds passphrase bytes (in the passphrase readers and the main program),
     derived keys (in encryption, decryption and the decryption cookie), keyed hash or MAC state
     (in SHA-256, HMAC and PBKDF2), AES keys and key schedules, or generator state and seeds:
     they were overwritten by insecure_memzero(), not by stores a compiler may drop.""",
     "inputs fault_sequences", "every path through the functions named, whichever calls fail",
     """What is left behind in dead memory is not an output; no test reads it.""",
     SHA + " lib/scryptenc/scryptenc.c libcperciva/util/readpass.c " + MAIN +
     " libcperciva/crypto/crypto_entropy.c libcperciva/crypto/crypto_aes.c "
     "libcperciva/crypto/crypto_aesctr.c libcperciva/crypto/crypto_aes_aesni.c",
     [("keys", "lib/scryptenc/scryptenc.c"), ("hash state", SHA + " PBKDF2_SHA256"),
      ("passphrase", "libcperciva/util/readpass.c readpass")],
     "Not claimed: the large mixing memory of scrypt, copies of secrets in registers, spilled "
     "registers and library buffers, and plaintext.")

prop("P18", "Wiping memory has its effect and cannot be optimised away",
     """insecure_memzero(buf, n) sets exactly the n bytes at buf to zero, by stores which a
     conforming compiler has to perform even if nothing reads the memory afterwards.""",
     "configurations inputs", "all uses and all compilers; lengths 0 to 130 and those used",
     """A test reads the buffer afterwards, which is what keeps the wipe from being dropped.""",
     WIPES, [("wipe", "libcperciva/util/insecure_memzero.h insecure_memzero"),
             ("pointer", "libcperciva/util/insecure_memzero.c insecure_memzero_ptr")])

prop("P21", "Time does not depend on keys or authentication codes",
     """crypto_verify_bytes() returns zero exactly if the two buffers are equal. It, the code that
     uses authentication codes and derived keys, and SHA-256, HMAC, PBKDF2 and the Salsa20/8
     block mixing take no branch, use no memory address and call no early-exit comparison that
     depends on authentication codes, derived keys, passphrase bytes or hash state.""",
     "inputs", "every content of the buffers; comparison lengths 0 to 35, hash lengths any",
     """Timing is not observable in a test's output, and a partial comparison shows only for
     inputs that differ in just the bytes left out.""",
     "libcperciva/crypto/crypto_verify_bytes.c lib/scryptenc/scryptenc.c " + SHA +
     " lib/crypto/crypto_scrypt_smix.c",
     [("comparison", "libcperciva/crypto/crypto_verify_bytes.c crypto_verify_bytes"),
      ("header code", "lib/scryptenc/scryptenc.c scryptdec_setup"),
      ("hash", SHA)],
     "scrypt's own data-dependent indexing is excluded by design, as are the passphrase "
     "confirmation (strcmp) and block functions in vector instructions.")

prop("P22", "Secrets are never printed, logged or exported",
     """No path gives the passphrase, the derived key, an AES key or generator state to a function
     that prints, logs, writes or exports it, at any verbosity and in any error message.""",
     "inputs fault_sequences", "every path, whichever calls fail, at any verbosity",
     """Tests look at expected output of a few runs, not at every message.""",
     "lib/scryptenc/scryptenc.c libcperciva/util/readpass.c " + MAIN,
     [("keys", "lib/scryptenc/scryptenc.c"),
      ("passphrase", "libcperciva/util/readpass.c readpass"), ("main", MAIN + " main")])

DRBG = "libcperciva/crypto/crypto_entropy.c"
prop("P15", "The random number generator is HMAC_DRBG, reseeded on time",
     """Each byte given by crypto_entropy_read() is, as a function of the seeds, the one that
     NIST SP 800-90A's HMAC_DRBG with SHA-256 gives when instantiated with 48 bytes of system
     entropy, reseeded with 32 bytes before the 257th generate request since the last seeding,
     and asked for at most 65536 bytes per request, the output of RDRAND being mixed in after
     each seeding if the processor has it. Requests fail exactly if a seed they need is
     missing, and nothing is generated from a state that was not seeded.""",
     "histories inputs fault_sequences",
     "every content of the seeds; sequences of up to 1000 requests of 0 to 65537 bytes "
     "(200000 with the thorough tier), with failing seeds",
     """Outputs are random: a wrong update, a repeated state or a missed reseeding is invisible
     in them, and reseeding is not reached in any test.""",
     DRBG, [("generator", DRBG + " crypto_entropy_read"), ("update", DRBG + " update"),
            ("reseeding", DRBG + " reseed")],
     "HMAC is taken as a function (P35 is about its body). That the system's entropy is "
     "random is not decided.")

prop("P16", "System entropy is read completely or the request fails",
     """entropy_read() succeeds only if every byte of the buffer was filled by reading
     /dev/urandom, whatever the lengths of partial reads; errors, end of file and failure to
     open make it fail. RDRAND output is used only if each of the requests for it succeeded.""",
     "inputs fault_sequences", "every length and every sequence of partial reads and failures",
     """Reads from /dev/urandom are never short or failing in a test, and unfilled bytes do not
     show.""",
     "libcperciva/util/entropy.c libcperciva/crypto/crypto_entropy_rdrand.c",
     [("reading", "libcperciva/util/entropy.c entropy_read_fill"),
      ("open", "libcperciva/util/entropy.c entropy_read_init"),
      ("RDRAND", "libcperciva/crypto/crypto_entropy_rdrand.c generate_seed_rdrand")])

HASH = "libcperciva/alg/sha256.c"
ALGS = " libcperciva/alg/sha256_sse2.c libcperciva/alg/sha256_shani.c"
prop("P28", "SHA-256 is FIPS 180-4's in every implementation",
     """Whichever implementation is used (portable, SSE2, SHA extensions), each byte of
     SHA256_Buf()'s result is, as a function of all bytes of the message, the one of FIPS
     180-4.""",
     "inputs configurations", "every content of messages of the lengths listed; each "
     "implementation that is compiled in",
     """One test machine uses one implementation and a few messages; the others never run.""",
     HASH + ALGS, [("portable", HASH + " SHA256_Transform"),
                   ("SSE2", "libcperciva/alg/sha256_sse2.c SHA256_Transform_sse2"),
                   ("SHA extensions", "libcperciva/alg/sha256_shani.c SHA256_Transform_shani")],
     "ARM implementations are not compiled here and not covered.", base=VALUES)

SMIX = "lib/crypto/crypto_scrypt_smix.c"
prop("P29", "scrypt's mixing is RFC 7914's in every implementation",
     """crypto_scrypt_smix() and its SSE2 version compute scryptROMix of RFC 7914: each byte of B
     afterwards is, as a function of all of B, the one of Salsa20/8, BlockMix, the order of
     its output blocks, Integerify and the two passes over V, for any r and N.""",
     "inputs configurations", "every content of B; the pairs r, N listed; each implementation",
     """Tests compare a few outputs with large N; with the SSE2 version, the portable one never
     runs, and the other way round.""",
     SMIX + " lib/crypto/crypto_scrypt_smix_sse2.c",
     [("portable", SMIX + " crypto_scrypt_smix"),
      ("SSE2", "lib/crypto/crypto_scrypt_smix_sse2.c crypto_scrypt_smix_sse2")], base=VALUES)

CTR = "libcperciva/crypto/crypto_aesctr.c"
prop("P30", "AES-CTR does not depend on how the stream is split or accelerated",
     """Byte i of an AES-CTR stream is byte i of the input xor byte i mod 16 of
     AES(key, nonce || i div 16), both big-endian, however the stream is split between calls,
     in place or not, at positions up to 2^63, with OpenSSL's AES or AES-NI. With AES-NI, key
     expansion and the block cipher are those of FIPS 197.""",
     "inputs histories configurations", "every key, nonce and content; the splits and positions "
     "listed; both implementations",
     """Carries between counter bytes and most alignments of chunks are not reached in tests,
     and a test machine has one implementation.""",
     CTR + " libcperciva/crypto/crypto_aesctr_shared.c libcperciva/crypto/crypto_aesctr_aesni.c "
     "libcperciva/crypto/crypto_aes_aesni.c libcperciva/crypto/crypto_aes.c",
     [("stream", CTR + " crypto_aesctr_stream"),
      ("AES-NI stream", "libcperciva/crypto/crypto_aesctr_aesni.c crypto_aesctr_aesni_stream"),
      ("AES-NI keys", "libcperciva/crypto/crypto_aes_aesni.c crypto_aes_key_expand_aesni")],
     "OpenSSL's AES is taken as correct.", base=VALUES)

prop("P34", "Hashing does not depend on how the message is split",
     """However a message is split between calls of SHA256_Update(), empty ones included, the
     hash is the iteration of the block function over its bytes in order, with the padding and
     64-bit count of FIPS 180-4, for messages longer than 2^32 bits too.""",
     "inputs histories", "every content; the splits listed, with each fill of the buffer",
     """The number of buffer fills and piece lengths that matter is more than tests sample, and
     counts over 32 bits are not reached.""",
     HASH, [("update", HASH + " SHA256_Update"), ("padding", HASH + " SHA256_Pad")],
     base=VALUES)

prop("P35", "HMAC and PBKDF2 follow their standards at every length",
     """HMAC_SHA256 is RFC 2104's HMAC for keys of any length (those over 64 bytes hashed), in
     one call or in pieces. PBKDF2_SHA256 is RFC 8018's for any lengths of password, salt and
     output, with the block number encoded in 32 bits, and any number of iterations.""",
     "inputs", "every content of key, message, password and salt; the lengths listed",
     """Tests use passphrases and salts of a few lengths; boundaries at 64 bytes and partial last
     blocks are not among them.""",
     HASH, [("HMAC", HASH + " HMAC_SHA256_Init"), ("PBKDF2", HASH + " PBKDF2_SHA256")],
     base=VALUES)

CPUS = "libcperciva/cpusupport/"
prop("P31", "Accelerated code runs only where supported and if its self-test passes",
     """An implementation in vector instructions (SHA extensions, SSSE3, AES-NI, RDRAND, SSE2) is
     executed only on a processor whose CPUID has the feature's leaf and bit. SHA-256, AES,
     AES-CTR and scrypt's mixing give right results even if an accelerated implementation
     fails its self-test, being computed in another way then; if no implementation passes, the
     program stops instead of using one.""",
     "configurations fault_sequences",
     "each set of processor features; each implementation wrong in a byte of its result or for "
     "one length of key",
     """A test runs on one processor whose implementations work.""",
     CPUS + "cpusupport.h " + CPUS + "cpusupport_x86_shani.c " + HASH +
     " libcperciva/crypto/crypto_aes.c " + CTR + " lib-platform/crypto/crypto_scrypt.c",
     [("detection", CPUS + "cpusupport_x86_shani.c"),
      ("choice and self-test of hashes", HASH + " hwaccel_init"),
      ("choice and self-test of AES", "libcperciva/crypto/crypto_aes.c hwaccel_init"),
      ("choice and self-test of mixing", "lib-platform/crypto/crypto_scrypt.c selectsmix")],
     "x86 only; ARM code is not compiled here. That SSE2 instructions themselves are not "
     "executed without SSE2 is decided for scrypt's mixing only.", base=VALUES)

prop("P32", "Sizes and numbers are parsed and printed exactly",
     """humansize_parse() accepts exactly a decimal number, an optional space, an optional SI
     prefix and an optional B, if the value fits in 64 bits, and gives that value. humansize()
     prints any size truncated to two digits (three from 100) with its SI prefix. PARSENUM
     gives the number, and fails if text follows it, it is not a number, or it is out of range
     of the bounds or type, NaN included.""",
     "inputs", "every digit of words of the listed forms; every order of a value and its bounds",
     """Where a product overflows, a prefix changes or a bound is met depends on values tests only
     sample; NaN compares false with every bound.""",
     "libcperciva/util/humansize.c libcperciva/util/parsenum.h",
     [("parse", "libcperciva/util/humansize.c humansize_parse"),
      ("print", "libcperciva/util/humansize.c humansize"),
      ("numbers", "libcperciva/util/parsenum.h PARSENUM")],
     "strtod(), strtoimax() and strtoumax() are taken as C requires. Which options are parsed "
     "with which bounds is P26's.", base=VALUES)

prop("P33", "Available memory and processor speed are found as documented",
     """The memory scrypt may use is the given fraction of the least of the machine's RAM and the
     process's limits of address space and resident set (soft, if any), then at most the given
     maximum if there is one, and never under 1 MiB. The speed is the number of Salsa20/8 cores
     done between two readings of one clock over the time between, ended by the first reading
     that is later by more than the clock's resolution. If one of these cannot be found, that is reported.""",
     "inputs configurations fault_sequences", "every value within each order of the limits; "
     "every clock reading, for up to seven readings",
     """A test machine has one amount of memory, no limits and a clock which works.""",
     "lib-platform/util/memlimit.c lib/scryptenc/scryptenc_cpuperf.c "
     "libcperciva/util/monoclock.c",
     [("memory", "lib-platform/util/memlimit.c memtouse"),
      ("speed", "lib/scryptenc/scryptenc_cpuperf.c scryptenc_cpuperf"),
      ("clock", "libcperciva/util/monoclock.c monoclock_get")],
     "As compiled on Linux, with sysinfo() and sysconf(). What the limits are used for is P11's "
     "and P12's.", base=VALUES)

OPT = "libcperciva/util/getopt.c"
prop("P36", "Words of the command line are understood as options as documented",
     """getopt.h finds each option in order, exactly once, with its own argument: -a, packed -abc,
     -cARG, -c ARG, --foo, --foo ARG, --foo=ARG (empty ones too), without abbreviations. Options
     not registered, or with an unwanted argument, are unknown; an option without its argument
     is missing one. Parsing ends at '--', which is skipped, at '-', or at the first other word.
     After optreset, the next command line is parsed afresh.""",
     "inputs histories", "the command lines listed, of words of each kind; characters of "
     "arguments unknown",
     """Tests use few forms of options, and those that scrypt itself registers.""",
     OPT + " libcperciva/util/getopt.h",
     [("parser", OPT + " getopt"), ("matching", OPT + " searchopt")],
     "Analysed with callers of getopt.h in /verif/sa/clients. As compiled by clang, by which "
     "options are registered through computed gotos instead of siglongjmp().", base=VALUES)

prop("P37", "Decryption gives back exactly what was encrypted",
     """Encrypting n bytes gives the n + 128 bytes of the documented format, the same from a file
     as from a buffer, and decrypting these with the same passphrase, as a file or a buffer,
     succeeds and gives exactly the n bytes, with the parameters that were used, whatever was
     done before in the same process. With another passphrase, decryption says so and outputs
     nothing; a file that was cut, extended or changed anywhere is never reported as decrypted.""",
     "inputs histories", "every plaintext, passphrase and salt, for the lengths, parameters and "
     "sequences listed",
     """Tests encrypt one file with a few passphrases; lengths near the block sizes, other
     parameters, interchange of the two interfaces and operations after each other are not
     tried, and a change made to both directions alike passes them.""", ENC,
     [("encryption", ENC + " scryptenc_buf, scryptenc_file"),
      ("decryption", ENC + " scryptdec_buf, scryptdec_file_prep, scryptdec_file_copy"),
      ("header", ENC + " scryptenc_setup, scryptdec_setup")],
     "Lengths up to 65569 bytes (655360 with the thorough tier); AES, SHA-256's block function "
     "and the key derivation are uninterpreted functions (see P28, P30, P14); bytes in the "
     "middle of long plaintexts are zeros.", base=VALUES)

prop("P38", "The time that encryption takes is near the limit set by -t",
     """Without explicit parameters, encryption and decryption of a new file take about the time
     given by -t on the machine at hand: not many times more, and, unless memory is the tighter
     limit, not many times less.""",
     "inputs configurations", "every machine, load and limit",
     """The time depends on the machine and its load; tests can only try one.""",
     "lib/scryptenc/scryptenc_cpuperf.c " + ENC,
     [("benchmark", "lib/scryptenc/scryptenc_cpuperf.c scryptenc_cpuperf"),
      ("choice", ENC + " pickparams")],
     na="""How long a machine takes is not in the source. What is there, the arithmetic from the
     measured speed to the parameters and that of the measurement, is in P11, P12 and P32.""")

prop("P39", "Guessing the passphrase of a file is as costly as the parameters promise",
     """Nothing in an encrypted file lets its passphrase or its plaintext be found by other means
     than deriving the key for each guess with the memory and time that N, r and p stand for.""",
     "inputs programs", "every attack within a given cost",
     """A test cannot quantify over attackers.""", ENC + " lib-platform/crypto/crypto_scrypt.c",
     [("derivation", "lib-platform/crypto/crypto_scrypt.c crypto_scrypt_internal"),
      ("format", ENC + " scryptenc_setup")],
     na="""A statement about all algorithms, resting on conjectures about SHA-256, AES and
     sequential memory-hardness, that no analysis of this source can decide. That the code is
     the published construction with fresh salts and secrets not leaked otherwise is in P14,
     P07, P09, P21 and P29.""")
