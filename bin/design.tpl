# Deciding the properties of cryptokit by bounded exhaustive exploration

## 1. What is decided, and how

`properties.jsonl` lists 33 properties (C01..C33); all are claimed, none is
under `not_applicable`.  All are decided by *stateless model checking of the
real implementation*: an explorer (OCaml + C, `harness/`) linked with the
library built from /repo's working tree enumerates **every** behaviour of a
bounded space - operation histories, cuts of the input, inputs of a structured
family, schedules, fault scripts, garbage-collection points - executes each one
on fresh objects, and compares every observation with an executable model.
Nothing is sampled: the seed is not used to choose behaviours.  No solver is
involved, and nothing reads the text of the sources: a rewrite that keeps the
behaviour cannot be seen by the checks.

The model side (the oracles) is independent of cryptokit:

* `harness/cref.c`: straightforward C transcriptions of the standards (MD5,
  SHA-1/2/3, Keccak, RIPEMD-160, BLAKE2b/2s/3, SipHash, AES, DES, Blowfish,
  ARCfour, Chacha20), bit- and byte-oriented, with no buffering, no unrolling,
  no tables beyond the ones of the standards;
* `harness/ref.ml`: modes of operation, HMAC, CMAC, CBC-MAC, GCM (GHASH bit by
  bit on Zarith integers), Poly1305 on Zarith integers, Base64, hexadecimal,
  padding, key derivation;
* `harness/inflate.ml`: an independent RFC 1950/1951 decoder;
* queue/FIFO models for buffering, arithmetic on Zarith for public-key code;
* two-run (noninterference) oracles for C23, and "the same object used alone"
  for C26.

`harness/selftest.ml` runs the references on published vectors every time an
explorer starts; a failing self-test is an infrastructure error (exit 2), not
a violation.

*Model traces against the implementation.*  There is no separate abstract
model that could drift: each explored history is one execution of the real
object in lock step with the model, so `traces_validated_against_impl` in the
evidence counts complete histories executed on both sides, `transitions` the
operations executed on the implementation and `states` the distinct abstract
states (recorded in a bit-state table).

### Running a check

`bin/check Cxx [--tier thorough]`
1. copies /repo (without `.git`, `_build`, `test`, `doc`) and `harness/` to a
   scratch folder under /tmp, and builds both with dune (about 2 s);
2. does that for each configuration of the property (`bin/table.py`);
3. runs `main.exe run --sections ...` with 8 worker processes, which share the
   cases of the sections round-robin, each worker limited to 3.5 GB and watched
   over (a case that makes no progress is a hang, hence a violation: every
   property implies termination);
4. re-executes every failing case alone in a fresh process (`confirmed`), so
   that a report is reproducible by `bin/check Cxx --replay replays/...json`;
5. writes `evidence/Cxx.json` and removes the scratch folder.

Crashes (signals), exceptions, hangs and wrong results of the code under test
are all violations of the case being executed; failing to build or to start
the explorer is exit 2.

### Configurations

| name | what |
|---|---|
| native | native code, AES-NI and PCLMULQDQ as detected |
| sw | `--disable-hardwaresupport`: software AES and GHASH |
| byte | bytecode (`*_bytecode` stubs) |
| poly32 | 32-bit Poly1305 arithmetic |
| o2 | C compiled with -O2 on top of the default flags |
| asan | C compiled with AddressSanitizer, bytes outside the announced ranges poisoned |
| emul | RDRAND replaced by a scripted instruction (`vw_asm.h`) |
| noaesni / nopclmul | hardware support compiled in, CPUID reporting its absence |
| noent, noent_nodev, noent_nothing | platform without getentropy, /dev/random, RDRAND |
| nozlib | `--disable-zlib` |

No hook was needed in /repo (`hooks` is empty): system calls are intercepted
with `-Wl,--wrap`, allocation points with wrapped runtime functions, inline
assembly by a forced include, all inside the scratch build.

## 2. The properties

For each: *explored space* (quick; thorough in parentheses), *oracle*, why a
test cannot settle it.  Exact bounds are in the sections' sources and in
`bin/table.py`; the counts in the evidence files.

@PROPS@

## 3. Defects found in cryptokit

All were repaired by `fix:` commits in /repo (20) and are listed in
`known_findings.txt`; there is no open known finding.

@FIXES@

Observations that are not violations of a stated property, left alone:
Chacha20-Poly1305's length limit is 2^38 instead of RFC 8439's 2^38-64 bytes;
AES-GCM's 2^36-32 limit cannot be reached by enumeration; `CTR_N n` stops
after 2^(8n)-1 blocks (one less than possible); Chacha20 with a 12-byte IV
wraps its 32-bit counter silently after 2^38 bytes; the 8-byte-IV variant of
Chacha20-Poly1305 uses the RFC 7539 layout; multi-line Base64 uses lines of 72
characters and no final newline after a last partial group; `uncompress#flush`
does nothing; `RSA.new_key` loops for an even `e`, its modulus may be one bit
short and it leaves a copy of p-1 in the heap; zlib's private state is not
erased; `Paillier.encrypt` leaves its message in the heap; a composition
announces the input block size of its first transform, whatever the second
one needs; `pseudo_rng` wipes the caller's seed on `wipe`;
`RSA.wipe_key` also wipes n; the documentation says SHA-1 for `DH.derive_key`
(SHA-256 is used); using SHA-3/BLAKE3 objects after `wipe` dereferences NULL
(use after wipe is outside the interface); the AES-NI 192-bit key schedule
loads 8 bytes beyond the key (inside the padding of the OCaml block; AddressSanitizer runs use
heap blocks large enough); `device_rng`/`Block.cipher` ignore empty
or negative lengths.

## 4. False alarms met and corrected

* C18: tiny primes for which e has no inverse, exponents truncated by the harness - the harness now builds only valid keys.
* C19: calling `message` on a destroyed secret was expected to work - removed (the secret is documented as destroyed).
* C12 (thorough): a harness `Char.chr` out of range.
* C23: the *amount* of output of a padded decryption, and the buffers of OCaml channels, depend on the data but are not memory of the object - excluded, stated in the property.
* C26: a session that wipes an RSA key shared with the other session; poll-driven preemption inside blocking system calls - sessions own their keys; blocking sections are explored by c26_blocking.
* C21, C25 (when run with deeper bounds): `CTR_N 1` on messages of 4096 bytes, beyond the documented limit of the counter - the harness keeps within the limit there (C09 decides what happens at the limit).
* C05/C15: none - the 4-Gbyte failures were genuine (fixed).

## 5. What the technique cannot reach here

Properties over all keys/messages are decided on structured families (every
value of every byte around several bases, single and double bit patterns, all
lengths) - not all 2^128 keys.  Counts beyond about 2^33 bytes are out of reach (GCM's and
Chacha20-Poly1305's maximal lengths, SHA-512's 2^125).  Big-endian and 32-bit code
paths cannot run here (poly32 excepted).  Timing (C29) is decided on instruction traces, not on
micro-architectural effects.  Key generation is explored for sizes where all
entropies matter (up to a few hundred bits).

## 6. Planted bugs

@BUGS@

## 7. Mutation campaigns and refactorings

Besides the bugs of section 6, the checks were measured with mechanical changes, each
confirmed to compile and to pass the 556 tests before being run:

* **C sources.**  About 160 changes written by hand from the text of the properties; and all
  single-token changes (operators, constants, conditions, deleted statements,
  narrowed types) of every C file: 2940 pass the tests, 2793 of these are not equal
  in object code to the original; a stratified sample of 286 was run against the
  quick sections and the survivors reviewed one by one.  What survives is
  equivalent (assertions, unreachable branches, a store followed by another one, `NULL` stored in
  a finalizer, capacities larger than needed), or needs more than 2^33 bytes.  The genuine misses
  found on the way led to c04_far/c07_far/c13_far/c30_far (offsets
  beyond 2^31), *_huge (one call of more than 4 Gbytes), c10_subkeys,
  the structured families, c26_address, c22_reclaim, c23_static and c25_absent.
* **OCaml sources.**  3251 mutants of cryptokit.ml and cryptokitBignum.ml, 1396 pass the tests
  (most wipes, defaults, announced sizes and error paths are untested); run one per
  line in random order against subsets of the quick sections, survivors verified with the real
  checks.  Misses that led to new checks: C32 (announced sizes), C33 and c15_defaults
  (defaults), c03_boundaries (finish with a full output buffer), c23_histories (data
  given by characters; initialization vectors), c23_bignums (key generation, derive_key).  Accepted survivors:
  larger internal buffers, lengths reached only after 2^38 bytes,
  error message texts, prime components written with leading zeroes, more frequent zlib
  flushing, the position of line breaks in multi-line Base64 below 76 columns.
* **Refactorings.**  Three sets of behaviour-preserving edits over all C files and the
  OCaml sources (helpers extracted, loops rewritten, statements reordered, buffers copied
  through temporaries, macros turned into functions): all checks stay quiet.  They led to
  the retries of c23_static and c22_reclaim and to hang detection by processor
  time instead of wall-clock time.
* **Not detected, deliberately**: changes visible only in the speed of an operation, in the text of an
  exception, or after use of an object that was wiped.
