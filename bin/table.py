"""Properties -> configurations and sections."""
CONFIGS = {
    "native": dict(deep=True, desc="native code, hardware support as detected"),
    "sw": dict(deep=True, desc="native code, ./configure --disable-hardwaresupport (software AES and GHASH)",
               vars=dict(hw="This (false)")),
    "byte": dict(desc="bytecode", byte=True),
    "poly32": dict(desc="portable 32-bit Poly1305 arithmetic (compiled without __SIZEOF_INT128__)",
                   cflags="-U__SIZEOF_INT128__", only="poly1305"),
    "o2": dict(desc="native code, C sources compiled with -O2", cflags="-O2"),
    "asan": dict(desc="native code, all C sources compiled with AddressSanitizer; everything outside the announced ranges is poisoned",
                 cflags="-fsanitize=address -fno-omit-frame-pointer",
                 env=dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=0:use_sigaltstack=0")),
    "emul": dict(desc="native code, RDRAND replaced by a scripted instruction",
                 cflags="-mno-red-zone -include {H}/vw_asm.h", only="stubs-", env=dict(VW_EMUL="1")),
    "noaesni": dict(desc="hardware support compiled in, processor without AES-NI",
                    cflags="-mno-red-zone -include {H}/vw_asm.h", only="stubs-", env=dict(VW_ECX_CLEAR="0x2000000")),
    "nopclmul": dict(desc="hardware support compiled in, processor without PCLMULQDQ",
                     cflags="-mno-red-zone -include {H}/vw_asm.h", only="stubs-", env=dict(VW_ECX_CLEAR="0x2")),
    "noent": dict(desc="platform without getentropy (secure_rng = /dev/random)",
                  cflags="-mno-red-zone -include {H}/vw_asm.h -UHAVE_GETENTROPY", only="stubs-", env=dict(VW_EXPECT="device")),
    "noent_nodev": dict(desc="platform without getentropy and without /dev/random (secure_rng = RDRAND)",
                        cflags="-mno-red-zone -include {H}/vw_asm.h -UHAVE_GETENTROPY", only="stubs-", env=dict(VW_EXPECT="hardware", VW_NODEV="1", VW_EMUL="1")),
    "noent_nothing": dict(desc="platform without any source of entropy",
                          cflags="-mno-red-zone -include {H}/vw_asm.h -UHAVE_GETENTROPY", only="stubs-",
                          env=dict(VW_EXPECT="none", VW_NODEV="1", VW_ECX_CLEAR="0x40000000")),
    "nozlib": dict(desc="./configure --disable-zlib", vars=dict(zlib="This (false)")),
}
# sections explored with the bounds of the thorough tier also by the quick checks,
# in the configurations marked "deep"
DEEP = """
c10_lengths c10_params c10_poly_edges c11_params c07_keys c07_blocks c07_positions c08_modes c08_real c08_histories
c09_ctr_transform c09_ctr_carry c09_gcm c13_calls c13_params c01_keys c14_blanks c14_decode c14_encode
c15_roundtrip c15_histories c15_damage c11_long_headers c04_sequences c04_cuts c04_pieces c06_hmac c06_blake c06_cbcmac
c25_catalogue c21_source c21_two_ranges c21_random c22_reclaim c24_keys c24_ivs c24_sizes c24_chunks
c18_word_sizes c19_params c19_derive c20_small_keys c20_new_key c30_numbers c30_xor c16_faults c16_ranges c16_real c17_sequences c02_cuts c02_auth c28_compose c28_auth c28_helpers
c18_new_key c27_channels c03_boundaries c21_bad_source c21_bad_two_ranges c09_ctr_small c12_pad
c29_exact c05_bytes c10_data c05_structured c06_structured c07_structured c10_structured c13_structured c26_many c10_subkeys c26_address c01_structured c31_transforms c31_hashes c31_auths c31_ciphers c31_random c31_functions
c32_transforms c32_flush c32_compose c32_auths c32_hashes c32_blocks c33_ciphers c33_streams c33_aead c33_macs c33_blocks c33_public_key
""".split()
COMMON_ASSUMPTIONS = [
    "the reference models of harness/cref.c and harness/ref.ml are right (self-tested on published vectors at every start)",
    "OCaml 4.14 runtime, Zarith/GMP, zlib and libc behave as specified",
]


def limit(tier):
    return 100 if tier == "quick" else 1500


def P(runs, bounds, **kw):
    return dict(runs=runs, bounds=bounds, **kw)


PROPS = {
    "C01": P([("native", ["c07_first", "c01_roundtrip", "c01_keys", "c01_structured", "c01_long", "c02_far"]), ("sw", ["c01_roundtrip", "c01_keys", "c01_structured"])],
             "all ciphers x modes x chunk sizes x paddings x lengths 0..2 blocks+2 (5 blocks+2 thorough), in one call and in pieces of every small size; every byte value of key and block, every key length of ARCfour and Blowfish; keys, IVs and texts made of all sequences of zero, all-ones and patterned words; texts of 2^16 and 2^20 bytes (2^24 thorough) in one call and in pieces; hardware and software AES"),
    "C02": P([("native", ["c02_sequences", "c02_cuts", "c02_auth", "c02_far", "c13_calls", "c15_histories", "c13_huge"])],
             "all sequences of put_*/get_*/flush calls up to the depth of the tier over sizes around the block boundaries, all two- and three-way cuts (of 200 bytes for the stream ciphers, of 70 bytes for the authenticated transforms), all triples of call sizes of the stream ciphers, one call of more than 2^32 bytes, all put/flush/get histories of compression, for every transform of the catalogue"),
    "C03": P([("native", ["c03_queue", "c03_boundaries", "c15_histories"])],
             "all interleavings of productions and partial reads up to the depth of the tier, with amounts around the capacity, compaction and growth points of the output buffer"),
    "C04": P([("native", ["c04_sequences", "c04_cuts", "c04_pieces", "c04_far"]), ("o2", ["c05_long"])],
             "all sequences of add_* calls over sizes around the block boundaries, all cuts in two and three, for every hash and MAC of the catalogue; messages of more than 2^29 and 2^32 bytes in one and in many additions"),
    "C05": P([("native", ["c05_lengths", "c05_bytes", "c05_structured", "c04_far"]), ("o2", ["c05_long"])],
             "every message length up to several blocks, every digest size, every byte value at every position of one and two blocks, all sequences of constant and patterned words, messages across 2^29 bytes (2^32 thorough)"),
    "C06": P([("native", ["c06_hmac", "c06_blake", "c06_siphash", "c06_cbcmac", "c06_structured", "c26_address", "c04_far"]), ("sw", ["c06_cbcmac"]), ("o2", ["c06_long"])],
             "every key length up to 2 blocks, all message lengths around every block boundary, all IVs/paddings, single-byte variations of key and message, messages of more than 2^29 bytes in many additions and 2^32 bytes in one; every message also in pieces; keys and messages made of all sequences of constant and patterned words; different keys in the same memory"),
    "C07": P([("native", ["c07_first", "c07_keys", "c07_blocks", "c07_positions", "c07_far", "c07_structured", "c26_address"]), ("sw", ["c07_keys", "c07_blocks", "c07_positions", "c07_far", "c07_structured", "c26_address"])],
             "every byte of key and block takes every value around several bases, all single-bit and neighbouring two-bit keys/blocks, all pairs of positions; keys and blocks made of all sequences of 32-bit words 0, ffffffff, and patterned; different keys in the same memory"),
    "C08": P([("native", ["c08_histories", "c08_modes", "c08_real", "c07_positions", "c30_xor"]), ("sw", ["c08_real", "c07_positions"])],
             "all histories of 3 (4) block operations over 3 block values x 3 placements, for block sizes 1..8 (17) and 64..128 (selected), all modes and chunk sizes"),
    "C09": P([("native", ["c09_ctr_small", "c09_ctr_carry", "c09_ctr_transform", "c09_gcm"]), ("sw", ["c09_ctr_transform", "c09_gcm"])],
             "complete life of 8- and 16-bit (24-bit thorough) counters from all/selected start values, all carry patterns for all widths, GCM counters around every byte boundary, hardware and software AES"),
    "C10": P([("native", ["c07_first", "c10_lengths", "c10_params", "c10_data", "c10_poly_edges", "c10_long", "c10_huge", "c10_structured", "c10_subkeys", "c02_far"]),
              ("sw", ["c10_lengths", "c10_params", "c10_data", "c10_structured", "c10_subkeys"]), ("poly32", ["c10_lengths", "c10_data", "c10_poly_edges", "c10_structured", "c10_subkeys"])],
             "all pairs of header and message lengths around the 16- and 64-byte boundaries, all IV lengths, every byte of key/IV/header/message, headers and texts made of all sequences of zero/ones/patterned blocks, keys whose GHASH or Poly1305 key has an extreme 32-bit word, Poly1305 limb edge cases"),
    "C11": P([("native", ["c11_text_and_tag", "c11_params", "c11_long_headers"]), ("sw", ["c11_text_and_tag", "c11_params", "c11_long_headers"]), ("poly32", ["c11_text_and_tag", "c11_long_headers"]), ("o2", ["c11_huge"])],
             "every single-bit change, truncation, extension and byte swap of ciphertext, tag, header, IV and key, for every authenticated transform of the catalogue, texts and headers of many lengths, up to more than 2^32 bytes; hardware and software, 64- and 32-bit arithmetic"),
    "C12": P([("native", ["c12_pad", "c12_decrypt", "c01_roundtrip"])],
             "block sizes 1..255, all used lengths; all blocks of 1..3 bytes; single-byte corruptions elsewhere"),
    "C13": P([("native", ["c13_calls", "c13_params", "c13_far", "c13_huge", "c13_structured", "c26_address"])],
             "all triples of call sizes around the block size, all key lengths of ARCfour, all bytes of Chacha20 key/IV, counters around every power of two, wrap-around included; periodic and constant keys; different keys in the same memory"),
    "C14": P([("native", ["c14_encode", "c14_blanks", "c14_decode"])],
             "all inputs of up to 2 bytes, all lengths, all positions of blanks, all texts of up to 4 characters over digit/blank/padding/garbage classes, all 256 characters at every position"),
    "C15": P([("native", ["c15_defaults", "c15_roundtrip", "c15_histories", "c15_damage", "c15_huge"])],
             "all levels x header x inputs; all put/flush/get histories up to the depth of the tier; every truncation, every bit flip, every trailing byte of several streams"),
    "C16": P([("native", ["c16_faults", "c16_ranges", "c16_real", "c16_huge"]), ("emul", ["c16_rdrand", "c16_hwhuge"]), ("noent", ["c16_fallback"]),
              ("noent_nodev", ["c16_fallback"]), ("noent_nothing", ["c16_fallback"])],
             "all scripts of RDRAND failures up to the depth of the tier with the instruction emulated; the fallback chain of secure_rng on platforms lacking each source; all schedules of short reads, EINTR, EIO and end of file up to the depth of the tier for every generator; all ranges of small buffers; requests of more than 2^32 bytes (2^31 too in the thorough tier)"),
    "C17": P([("native", ["c17_sequences", "c17_huge"])],
             "all sequences of request sizes up to the depth of the tier around the block boundaries, every seed length, every seed byte"),
    "C18": P([("native", ["c18_small_keys", "c18_word_sizes", "c18_new_key"])],
             "all pairs of primes up to the bound of the tier, all exponents, all messages; primes around machine-word sizes; new_key for all even sizes and entropies"),
    "C19": P([("native", ["c19_small_groups", "c19_params", "c19_derive", "c23_bignums"])],
             "all small prime groups, generators and pairs of private secrets; new_parameters for all sizes; derive_key for all lengths"),
    "C20": P([("native", ["c20_small_keys", "c20_new_key"])],
             "all pairs of small primes, all messages, several randomness values, all sums; new_key for all even sizes and entropies"),
    "C21": P([("native", ["c21_source", "c21_bad_source", "c21_two_ranges", "c21_bad_two_ranges", "c21_random", "c02_far", "c04_far", "c07_far", "c13_far", "c30_far"]),
              ("asan", ["c21_source", "c21_bad_source", "c21_two_ranges", "c21_bad_two_ranges", "c21_random",
                        "c04_pieces", "c05_lengths", "c06_hmac", "c06_blake", "c06_siphash", "c06_cbcmac", "c07_keys", "c07_blocks", "c08_real", "c10_lengths", "c10_params",
                        "c13_calls", "c13_params", "c15_roundtrip", "c15_histories", "c15_damage", "c16_ranges", "c17_sequences", "c30_xor", "c30_numbers"])],
             "every object of the catalogue x lengths x offsets with the range ending or starting at a guard page (and, with AddressSanitizer, every byte outside the range poisoned); all combinations of boundary offsets and lengths (negative, past the end, overflowing) for buffers of several sizes"),
    "C22": P([("native", ["c22_alloc", "c22_polls", "c22_lifetimes", "c22_reclaim", "c26_address"]), ("sw", ["c22_alloc", "c22_lifetimes", "c22_reclaim"]), ("asan", ["c22_alloc", "c22_lifetimes"])],
             "for every object of the catalogue and every public-key operation: a minor, major or compacting collection (freed memory poisoned) at each allocation of the C primitives and at each poll point of the OCaml code; all sequences of 4 (6) use/wipe/drop/collect/recreate actions over all pairs of objects holding C memory; memory outside the heap does not grow when objects of any kind are repeatedly created, used and dropped at each stage of their life",
             technique="stateless model checking: systematic enumeration of garbage-collection points in the running implementation"),
    "C23": P([("native", ["c23_histories", "c23_helpers", "c23_globals", "c23_static", "c23_strings", "c23_bignums"]), ("sw", ["c23_histories", "c23_helpers", "c23_static"])],
             "for every object of the catalogue all histories of use up to the depth of the tier followed by wipe, each executed with two different secrets: the complete reachable memory (OCaml heap graph and C blocks, including C blocks at the moment they are freed) must not depend on the secret; helpers, module globals, static memory of the C code and secret strings alike; big numbers of every size; the young generation searched for private keys and messages after each RSA, Paillier and Diffie-Hellman operation",
             technique="stateless model checking with a two-run (noninterference) oracle on the complete reachable memory after wipe"),
    "C24": P([("native", ["c24_keys", "c24_ivs", "c24_sizes", "c24_chunks"])],
             "every constructor x all key lengths 0..300 and selected long ones, all IV lengths 0..80, all digest sizes -20..1100, all seed lengths 0..200, all modulus sizes -10..257, all chunk sizes -300..300, all triples of block sizes 1..20"),
    "C25": P([("native", ["c07_first", "c25_catalogue"]),
              ("sw", ["c07_first", "c25_catalogue", "c06_cbcmac", "c07_keys", "c07_blocks", "c08_real", "c09_gcm", "c10_lengths", "c10_data", "c11_text_and_tag", "c07_structured", "c10_structured", "c10_subkeys"]),
              ("noaesni", ["c07_first", "c25_absent", "c25_catalogue", "c07_blocks", "c10_lengths", "c10_data"]),
              ("nopclmul", ["c07_first", "c25_absent", "c25_catalogue", "c07_blocks", "c10_lengths", "c10_data"]),
              ("poly32", ["c25_catalogue", "c10_lengths", "c10_data", "c10_poly_edges", "c11_text_and_tag"]),
              ("o2", ["c25_catalogue", "c05_lengths", "c07_keys", "c07_blocks", "c10_lengths", "c10_data", "c13_calls"]),
              ("byte", ["c25_catalogue", "c04_cuts", "c12_decrypt", "c13_calls", "c14_decode", "c15_roundtrip", "c16_ranges", "c17_sequences", "c19_derive", "c27_channels", "c30_numbers", "c30_xor", "c07_far", "c13_far"]),
              ("nozlib", ["c25_catalogue", "c25_zlib"])],
             "every object of the catalogue x all lengths 0..70 (160) and selected longer ones, plus the exhaustive conformance sections of the affected primitives, in eight configurations: AES-NI/PCLMULQDQ, software AES and GHASH, processor lacking either instruction set, 32-bit Poly1305, -O2, bytecode, without zlib; every instruction executed by AES, GCM, CMAC and pseudo-random operations examined when the processor lacks an instruction set",
             technique="stateless model checking: the same exhaustive conformance exploration executed in every build configuration, all compared with one model"),
    "C26": P([("native", ["c26_first", "c26_interleavings", "c26_three", "c26_polls", "c26_blocking", "c26_callbacks", "c26_many", "c26_address"]), ("sw", ["c26_first", "c26_interleavings", "c26_callbacks", "c26_many", "c26_address"])],
             "all interleavings of the steps of two sessions for all pairs of 66 kinds of session (same and different keys), of three sessions of each kind; one session run inside another at every poll point, every blocking section and every user callback; up to 257 simultaneous sessions of every kind; all sequences of three calls whose arguments occupy the same memory",
             technique="stateless model checking: exhaustive exploration of schedules of the implementation under a controlled scheduler"),
    "C27": P([("native", ["c27_channels", "c27_all"])],
             "all lengths around the transfer buffer size x all patterns of short reads up to the depth of the tier; every transform and hash of the catalogue through channels"),
    "C28": P([("native", ["c28_compose", "c28_auth", "c28_helpers", "c02_auth"])],
             "all pairs of transforms of the catalogue (triples thorough), all transform/hash pairs, lengths around block boundaries"),
    "C29": P([("native", ["c29_exact", "c29_time"])],
             "all pairs of strings over small alphabets and lengths, every single-byte difference at every position; instruction traces compared for all difference positions"),
    "C30": P([("native", ["c30_numbers", "c30_xor", "c30_far", "c30_huge"])],
             "all operands below the bound of the tier in every width, boundary values for all widths up to 34 (70) bytes; all offsets and lengths of xor"),
    "C31": P([("native", ["c31_transforms", "c31_hashes", "c31_auths", "c31_ciphers", "c31_random", "c31_functions"]), ("sw", ["c31_ciphers", "c31_auths"])],
             "all sequences of up to 3 pieces of sizes around the block boundaries x the ways of giving them (substring overwritten after the call, string, characters) x the ways of reading the output, for every object of the catalogue; all sequences of 3 public-key operations and helpers"),
    "C32": P([("native", ["c32_transforms", "c32_flush", "c32_compose", "c32_auths", "c32_hashes", "c32_blocks"]), ("nozlib", ["c32_compose"])],
             "every cipher x mode x chunk size x padding x direction, every stream cipher, codec, authenticated transform, hash and MAC (all digest sizes of BLAKE2, BLAKE3 up to 1200 bytes): all sequences of up to 4 pieces of sizes around the announced unit, the announcements read again after every step; flush after every length 0..3 units; all pairs and triples of 14 transforms composed"),
    "C33": P([("native", ["c33_ciphers", "c33_streams", "c33_aead", "c33_macs", "c33_blocks", "c33_public_key", "c15_defaults"]), ("sw", ["c33_ciphers", "c33_aead"])],
             "every function and class with optional arguments x every subset of them given or left out (all modes and chunk sizes, three paddings, both directions; key and IV sizes, initial counters; headers; exponents, private lengths, generators) x all lengths 0..4 units (300 bytes for stream ciphers); ECB with IVs of every length 0..2 blocks+1"),
}
