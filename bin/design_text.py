TEXT = dict(
C01="""Every cipher constructor x mode x chunk size x padding x key size x length is encrypted and decrypted in both
build variants of AES; keys and blocks take every value of every byte.  Oracle: the message itself, the length rule and the
refusals of the statement (no reference cipher is needed, so the check is about inversion, not about conformance).""",
C02="""The explorer is a depth-first enumeration of call sequences over put_substring/put_string/put_char/put_byte (sizes
around the block size, zero included), get_* and flush, for each transform of the catalogue (all ciphers and modes, paddings,
codecs, zlib, compositions, AEAD), plus all ways of cutting inputs in two and three, plus sources at offsets beyond 2^31 and
2^32 (sparse mappings).  Oracle: the output of the model on the concatenation.""",
C03="""The transform under test has a trivial production function; all interleavings of productions and partial reads, with
amounts around the capacity/compaction/growth points of the buffer (256, 512, ...), are executed against a FIFO model; every
transform is then explored byte by byte through its capacities.""",
C04="""As C02 for hashes and MACs: all sequences of add_* calls up to the depth, all cuts in two and three of messages of
several blocks, long messages in pieces of every size around the internal buffers, distant offsets.""",
C05="""Every message length up to several blocks, sizes around powers of two, all digest sizes, every byte of the last
blocks taking every value, single additions of more than 2^32 bytes (mapped periodic strings, no memory cost) and many
additions crossing 2^29 bytes, against the reference (expected digests of the longest messages are precomputed by the
reference with `main.exe table` and rechecked by the self-test on shorter ones).""",
C06="""Every key length (to two blocks and beyond), IV, padding, digest size and message length around block boundaries,
each byte of key and message taking every value; reference HMAC/CMAC/CBC-MAC/SipHash/keyed BLAKE.""",
C07="""Every value of every byte of key and block around several bases, all one- and two-bit patterns, walks of the
permutation, all pairs of positions in one or two buffers with an exact footprint, distant offsets; hardware and software.""",
C08="""Toy block ciphers of every block size 1..17 (a user-defined class) under every mode and chunk size: all histories of
block values x placements (in place, other buffer, shifted), then all modes through the transform, padded and MAC wrappers.""",
C09="""The complete life of small counters (all 2^8 and 2^16 values, 2^24 thorough), all carry patterns for all widths and
block sizes, GCM IVs solved for (GHASH is inverted) so that the initial counter sits just below every byte boundary, and
exhaustion followed by further use; each counter value is looked up in a table of used ones.""",
C10="""All pairs of header and message lengths around 16 and 64, all IV lengths, all values of all bytes of key, IV, header
and ciphertext for many hash subkeys, ciphertexts solved for so that the Poly1305 accumulator takes the values around 2^130-5
and all limb boundaries, texts and headers of more than 2^32 bytes.""",
C11="""From each genuine message all single-bit changes, truncations, extensions, removals, insertions, swaps, all pairs of
tag bytes, all bits of key, IV and header, transfers of bytes between header and text: acceptance is allowed exactly when the
model accepts.""",
C12="""Block sizes 1..255 with every used length; all 2^8, 2^16 and 2^24 blocks of 1..3 bytes; all words over small
alphabets for 8 and 16 bytes; padded decryption of every final block through toy ciphers.""",
C13="""All triples of call sizes around 64, keys of every length, all bytes of key/IV, counters around every power of two,
streams in one call of more than 2^32 bytes; keystream from the reference.""",
C14="""All inputs of up to two bytes, all lengths, all subsets of blank positions, every text of up to four characters over
classes, every character at every position.""",
C15="""All put/flush/get histories up to the depth, every truncation, bit flip and appended byte of several streams
(stored, fixed, dynamic blocks, preset dictionary), all short inputs, ranges of more than 2^32 bytes; independent inflate.""",
C16="""Fault scripts: every sequence of results (full, each short length, EINTR, EIO, end of file, getentropy failure,
RDRAND carry clear) up to the depth is injected under every generator; the destination is compared with the bytes the
injected source delivered.  The fallback chain of secure_rng runs on five synthetic platforms.""",
C17="""All sequences of request sizes and offsets up to the depth for every seed length; one call of more than 2^32
bytes; two generators interleaved in C26.""",
C18="""All pairs of small primes, all exponents, all messages; primes around machine-word sizes; new_key for every size and
a family of entropies, checked arithmetically with Zarith.""",
C19="""All small groups, generators and secrets; parameters of every size; all output lengths of derive_key.""",
C20="""All small keys, messages, sums and several randomness values; new_key as in C18.""",
C21="""Every operation on a range that ends or starts at an unmapped page (and, under AddressSanitizer, is surrounded by
poisoned bytes), every length and offset; all combinations of invalid boundary values; two-range operations with every
relative position; ranges beyond 2^31/2^32.""",
C22="""A collection (minor, major or compacting, with freed memory poisoned) is forced at the k-th allocation made by the
library's C primitives, for every k, and at every poll point of its OCaml code; all sequences of use/wipe/drop/collect/recreate
over pairs of objects holding C memory.""",
C23="""Every history of use up to the depth ends with wipe and is executed with two different secrets; the memory graphs
reachable from the object (OCaml blocks, closures, custom blocks' C memory) and the C blocks at the moment they are freed must
be bitwise identical.""",
C24="""Every constructor with every size in the ranges given, compared with the documented set.""",
C25="""One exploration of the whole catalogue, and the conformance sections of the affected primitives, executed in eight
build configurations against the same model.""",
C26="""All interleavings of the steps of two sessions for all pairs of session kinds (same and different keys), of three for
each kind; the second session also runs inside the first at every poll point (signal handler), at every blocking section
(master lock released) and at every user callback (user-defined ciphers, hashes, generators, paddings).""",
C27="""All lengths around the transfer buffer and all patterns of short reads up to the depth, on pipes and files.""",
C28="""All pairs (triples) of catalogue transforms; all transform/hash pairs; all helper functions.""",
C29="""All pairs of strings of the families of the bounds; instruction traces (hardware single-stepping of the real code)
must be identical for all positions and patterns of differences.""",
C30="""All small operands in every width, boundary values for wide ones; xor on all offsets, lengths, alignments and
aliasing, distant offsets and more than 2^32 bytes.""",
C31="""All sequences of pieces given in every way (source buffers overwritten as soon as the call returns) with every way of
reading in between: outputs equal the model's; every argument string and every string returned so far is compared with a
copy after each run, after wiping and after the use of a second object.  All sequences of 3 public-key operations and
helpers with their arguments, keys and results watched in the same way.""",
C32="""Every object of the catalogue is driven through all sequences of pieces around its announced unit; after every step the
announcements are read again (they must not change), the output is taken in each of the three ways and counted against
available_output and output_block_size, finish and flush must succeed exactly on the multiples of input_block_size, and
digests and tags must have the announced length.""",
C33="""Every subset of the optional arguments of every function and class is given or left out, for all lengths around the
units; the outcome must be the model's for the documented defaults (CBC, no padding, null IV, counter 0, empty header,
level 6, 160-bit secrets ...).  Public-key functions are run with counted, scripted generators: the generator given is
used, determines the outcome entirely, and the requested exponent or secret size is found in the result.""",
)
BUGS = """
`seeded/` holds bugs in C sources (the ones vcheck can run), `mutants/` bugs in
the OCaml sources, confirmed in the same way (each builds, passes the 556
tests, and its demo passes on the unchanged tree and fails with the patch).
Besides these hand-written bugs a mechanical mutation campaign over all C files
was run (section 7).
"""
