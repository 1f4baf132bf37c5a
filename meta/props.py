"""The one source of properties.jsonl and MANIFEST.json (python3 meta/gen.py)."""

D = "src/milo/primitive/detail/"
ALL_INPUTS = ["inputs", "histories"]

PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, note, level="other", state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, level=level, state=state, observe=observe))


def N(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                   reason=reason))


P("P01", "Hashing does not depend on how a message is cut into updates",
  "For SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256, the blocks compressed are exactly the "
  "message followed by 0x80, the least number of zero bytes and the message's bit length, whatever the sizes of the "
  "updates, including empty ones. The chaining value starts from the algorithm's "
  "initial constants, changes only by compressing blocks, and the digest is its leading bytes in big endian, unchanged "
  "by reading it repeatedly; initializing again starts a fresh message.",
  ALL_INPUTS, "every sequence of update sizes (each size any 64-bit value), every message content, every implementation behind the block function",
  "the tests hash a few vectors and split them at a few positions; the buffer boundary, the two-block padding case and carry of the length are met only by chance",
  [D + "hash/impl.h", "src/milo/internal/update.h", "src/milo/primitive/hash/apie.h"],
  [("generic block update with carry-over buffer", "src/milo/internal/update.h"), ("padding and digest", D + "hash/impl.h")],
  "abstract interpretation of LLVM IR, symbolic sizes",
  "Every path through initialize/update/finalize/digest with the compression function opaque and all sizes symbolic; a "
  "history is induction over one update from an arbitrary buffered state. Trusts clang's front end and the analyser; "
  "does not decide the arithmetic of the compression function.",
  state=[("block buffer and its fill", "bytes of the message not yet compressed"), ("message size", "total bytes")])

P("P02", "ChaCha keystream bytes follow the message position, however it is cut",
  "For ChaCha20, byte i of everything passed through a cipher object since it was initialized is combined "
  "with byte i of the keystream of its key, nonce and starting counter, whatever the sizes of the calls, in place or "
  "not. Each keystream block is generated from the constants, the key, the nonce and the "
  "block counter, which advances by exactly one per 64 bytes and wraps at 32 bits, and no keystream byte is used twice.",
  ALL_INPUTS, "every sequence of call sizes, key, nonce and content, for each number of blocks an implementation takes at a time",
  "the tests cut messages at a few places for one backend at a time; leftover keystream shorter than, equal to and longer than the next call, with each backend ratio, is a product they do not cover",
  [D + "cipher/impl.h", D + "cipher/chacha/chacha.h", "src/milo/primitive/cipher/apie.h"],
  [("leftover keystream handling", D + "cipher/impl.h"), ("counter and state layout", D + "cipher/chacha/chacha.h")],
  "abstract interpretation of LLVM IR, symbolic sizes",
  "All paths of initialize and of one call from an arbitrary leftover state, keystream generator opaque, sizes "
  "symbolic. The values of the block function are not decided.",
  state=[("leftover keystream and its size", "keystream produced and not yet used"), ("counter", "next block")])

P("P03", "Poly1305 absorbs the same blocks however a message is cut",
  "The blocks absorbed are the message's consecutive 16-byte blocks with the high bit added, then at most one shorter "
  "block extended by a one byte and zeros, whatever the sizes of the updates. The multiplier is the clamped first half "
  "of the key read as little endian, the accumulator starts at zero, and the digest combines the final accumulator "
  "with the second half of the key; initializing again discards everything before.",
  ALL_INPUTS, "every sequence of update sizes, key and content",
  "the tests use a few vectors, each with one or two splits",
  [D + "mac/poly/poly_1305.h", "src/milo/internal/update.h", "src/milo/primitive/mac/apie.h"],
  [("block carry-over", "src/milo/internal/update.h"), ("key setup and last block", D + "mac/poly/poly_1305.h")],
  "abstract interpretation of LLVM IR, symbolic sizes",
  "All paths with the block absorption opaque; the field arithmetic is not decided.")

P("P04", "HMAC hashes exactly the inner and outer transcripts",
  "The digest is hash(key xor opad, hash(key xor ipad, message)), where a key longer than the hash's block is hashed "
  "first and a shorter one is extended by zeros. This holds for every key size and every way of cutting the message "
  "into updates, for every hash whose block and digest sizes the library offers, and each use of an inner hash is "
  "initialized before and finalized before it is read.",
  ALL_INPUTS, "every key size, including 0, the block size and one more, every sequence of updates, every hash",
  "the tests use keys of few sizes; the boundary key sizes are missed for most hashes",
  [D + "mac/hmac/hmac.h", "src/milo/primitive/mac/apie.h"],
  [("key preparation and the two passes", D + "mac/hmac/hmac.h")],
  "abstract interpretation of LLVM IR over a recording hash",
  "All paths with a recording hash in place of the hash, sizes symbolic.")

P("P05", "HKDF output is the same bytes however it is requested",
  "The pseudo random key is hmac(salt, input key), block 1 is hmac(prk, info, 1) and block i is hmac(prk, block i-1, "
  "info, i). The bytes returned by successive derive calls after one initialization are consecutive bytes of block 1, "
  "block 2 and so on, within the 255 blocks the counter can number, whatever their sizes.",
  ALL_INPUTS, "every sequence of output sizes, every salt, key and info size",
  "the tests derive a few sizes in one or two calls",
  [D + "kdf/hkdf.h", "src/milo/primitive/kdf/apie.h"],
  [("extract and expand", D + "kdf/hkdf.h")],
  "abstract interpretation of LLVM IR over a recording mac",
  "All paths of initialize and of up to three derive calls with symbolic sizes, the whole blocks of a call followed "
  "for a bounded number of loop turns.")

P("P06", "PBKDF2 output is the same bytes however it is requested",
  "Block i is the xor of U1 to Uc with U1 = prf(password, salt, i as 32 bits big endian) and Uj = prf(password, Uj-1), "
  "c being the iteration count. The bytes returned by successive derive calls after one initialization are consecutive "
  "bytes of block 1, block 2 and so on, whatever their sizes, and the block number stays exact as a 32-bit number.",
  ALL_INPUTS, "every sequence of output sizes, iteration count, password and salt size",
  "the tests derive a few sizes; block numbers beyond the first few are never reached",
  [D + "kdf/pbkdf_2.h", "src/milo/primitive/kdf/apie.h"],
  [("block loop and counter", D + "kdf/pbkdf_2.h")],
  "abstract interpretation of LLVM IR over a recording mac; induction on the block number",
  "All paths of initialize and of up to three derive calls; the xor loop is followed for a bounded number of "
  "iterations and the block number checked from an arbitrary value.")

P("P07", "AEAD authenticates and encrypts exactly the RFC 8439 transcript",
  "The one-time mac key is the first 32 bytes of keystream block 0 and data is combined with the keystream from block 1 "
  "on. The mac reads the associated data padded by zeros to 16 bytes, the ciphertext (on encryption and decryption "
  "alike, also in place) padded the same way, and the two sizes as 64-bit little endian numbers, exactly once, "
  "whatever the sizes and number of calls, whether or not either part is empty, through the objects and the "
  "all-at-once functions alike; a second initialization starts afresh.",
  ALL_INPUTS, "every sequence of associated data and message sizes, key, nonce, in place or not",
  "the tests use a few vectors with both parts present, mostly in one call",
  [D + "aead/chacha/chacha_20_poly_1305.h", "src/milo/primitive/aead/apie.h"],
  [("transcript", D + "aead/chacha/chacha_20_poly_1305.h"), ("closing of the associated data", "src/milo/primitive/aead/apie.h")],
  "abstract interpretation of LLVM IR over recording cipher and mac",
  "All paths of the implementation and of the wrapper's sequences with recording stand-ins for the cipher and the mac; "
  "sizes symbolic.")

P("P08", "AEAD verification accepts exactly the matching 16-byte digest",
  "Verification and the decrypting functions report success exactly when the digest supplied has 16 bytes and all of "
  "them equal the digest computed over what was processed. Every other digest, shorter, longer or different in any "
  "bit, is reported as the verification error, by the error object when one is passed and by an exception otherwise, "
  "through every overload.",
  ["inputs", "histories", "configurations"], "every supplied digest of every size, every computed digest, every verifying overload",
  "the tests flip a bit or two; a comparison that ignores one byte or accepts a prefix passes them",
  ["src/milo/primitive/aead/apie.h", "src/milo/internal/memory.h"],
  [("verification", "src/milo/primitive/aead/apie.h"), ("comparison", "src/milo/internal/memory.h")],
  "abstract interpretation of LLVM IR, comparison decided over all 16 bytes",
  "All paths of verify and of the decrypting overloads, for digest sizes 0 to 20 one by one and larger ones "
  "symbolically; computed and supplied bytes symbolic.")

P("P09", "Memory access stays inside the caller's buffers and the objects",
  "For every size of key, nonce, salt, message, associated data, digest and output, and every way of cutting the work "
  "into calls, hashing, macs, ciphers, key derivation, aead and the codecs read and write only inside their own "
  "objects and inside the buffers and sizes the caller passed. An output pointer and size never have more than that "
  "size written, whatever the natural size of the result.",
  ALL_INPUTS, "every buffer size including zero and every sequence of calls",
  "the tests run with a few sizes and without a sanitizer; an out of bounds access for one remainder goes unseen",
  [D, "src/milo/internal/update.h", "src/milo/container.h", "src/milo/primitive"],
  [("size arithmetic of the buffers", "src/milo/internal/update.h"), ("output truncation", "src/milo/internal/utility.h")],
  "abstract interpretation of LLVM IR with a linear-arithmetic bounds domain",
  "Each load, store, copy and backend call on each path of the scenarios of the other checks, with caller buffers of "
  "exactly the sizes given. The block functions' own table and schedule accesses are decided separately; the "
  "overloads that fill a fixed-size output container are covered only within their precondition.")

P("P10", "Codecs produce and accept exactly their alphabets",
  "Encoding in base 16 and base 64 writes exactly the characters of the alphabet for the input's bits, with base 64 "
  "padding, and as many as announced. Decoding succeeds exactly on the texts of the alphabet (either case for base "
  "16; padded only at the end for base 64) and yields the bytes the characters stand for; every other text, including "
  "any with a byte above 0x7f, is reported as the codec's decoding error together with the number of bytes already "
  "written.",
  ["inputs"], "every text and byte sequence, of every length",
  "the tests decode a few valid texts and reject a few invalid ones; one wrong entry among 256, or in the last group only, is not met",
  [D + "codec/base_16.h", D + "codec/base_64.h", "src/milo/primitive/codec/apie.h"],
  [("tables", D + "codec/base_64.h"), ("tables", D + "codec/base_16.h")],
  "abstract interpretation of LLVM IR; path conditions and values tabulated over all bytes",
  "Conditions on every path and values on every success path are compared with the codec's definition for all 256 "
  "values of each byte; lengths are symbolic through the group loop (quick tier: the loop body and every remainder).")

P("P11", "Every front end gives what the object computes, to the size asked for",
  "For hashes, macs, ciphers, key derivation, aead and codecs, every overload (pointer and size, fixed or growing "
  "container, returned container, object or one-shot function) hands the same bytes to the same role (key, nonce, "
  "salt, info, message) of one freshly initialized backend and delivers the same result, cut to the output's size and "
  "with the size returned. Reading a digest again gives the same value, a second initialization forgets the first, and "
  "a codec's growing container ends with exactly the bytes produced, errors by reference and by exception alike.",
  ["inputs", "histories", "configurations"], "every overload, argument size and order of calls of the public objects",
  "the tests use one or two overloads per primitive with outputs of the natural size",
  ["src/milo/primitive/hash/apie.h", "src/milo/primitive/mac/apie.h", "src/milo/primitive/cipher/apie.h",
   "src/milo/primitive/kdf/apie.h", "src/milo/primitive/codec/apie.h", "src/milo/primitive/aead/apie.h", "src/milo/container.h"],
  [("overloads", "src/milo/primitive/kdf/apie.h"), ("container sizes", "src/milo/internal/utility.h")],
  "abstract interpretation of LLVM IR of the overloads over recording backends",
  "Every overload with a recording backend whose sizes, results and errors are symbolic; containers are a growing one "
  "and a view of fixed size.")

P("P12", "Copies and moves carry the whole computation and nothing shared",
  "A hash, mac, cipher, key derivation or aead object that is copied, moved from or assigned at any point of its work "
  "gives a second object that continues from there: fed further data it yields exactly the result of everything fed to "
  "it and its source before the copy. What is done to either object afterwards, including its destruction, never shows "
  "in the other; an assigned-to object forgets its own past.",
  ["inputs", "histories"], "every object, every point of its work, every amount of data before and after",
  "no test copies an object in the middle of a message",
  ["src/milo/primitive/detail/hash/sha", "src/milo/primitive/detail/mac", "src/milo/primitive/detail/kdf", D + "cipher/chacha/chacha.h",
   "src/milo/primitive/hash/apie.h", "src/milo/primitive/mac/apie.h", "src/milo/primitive/kdf/apie.h"],
  [("copying, moving, assignment", "src/milo/primitive/detail"), ("of the wrappers", "src/milo/primitive/mac/apie.h")],
  "abstract interpretation of LLVM IR over histories with a copy in the middle",
  "One copy, move or assignment with one further piece of data on either side, all sizes symbolic, before and after "
  "finalization; key derivation with at most two blocks per call.")

P("P13", "Nothing computed from keys or messages outlives its object",
  "When a hash, mac, cipher, key derivation or aead object ends, every byte of it that ever held a value computed from "
  "a key, message, keystream or digest has been overwritten by a write the compiler may not omit, whatever had been fed "
  "in and at whatever point of its work it ends. The same holds for the local arrays its member functions keep such "
  "values in, when the function returns.",
  ["inputs", "histories"], "every object, every size of key and data, every point of its work",
  "erasure cannot be observed by comparing results; removing it fails no test",
  [D, "src/milo/internal/memory.h"],
  [("unremovable writes", "src/milo/internal/memory.h"), ("destructors", D + "mac/poly/poly_1305.h"),
   ("local key buffers", D + "kdf/pbkdf_2.h"), ("one-time mac key", D + "aead/chacha/chacha_20_poly_1305.h")],
  "abstract interpretation of LLVM IR with a secret-content typestate per byte",
  "Each byte's secret and unremovable writes in order, on every path of the objects' scenarios. Local arrays of more than "
  "8 bytes; registers, spills and the working variables of the block functions are outside, since C++ gives no means to "
  "erase them.")

P("P14", "Poly1305 arithmetic is exact modulo 2^130 - 5",
  "For every key, message and number of blocks, absorbing a block replaces the accumulator by (accumulator + block + "
  "pad bit) times the clamped first half of the key, modulo 2^130 - 5, with no carry lost and no word overflowing. The "
  "digest is the accumulator fully reduced plus the second half of the key modulo 2^128, least significant byte first; "
  "each block is read once, in order, and nothing outside it.",
  ["inputs"], "all keys, messages and accumulators, including the carries that occur once in 2^64 inputs",
  "a lost carry shows in so few inputs that no sampled vector meets it",
  [D + "mac/poly/poly_1305_impl_sw.h", D + "mac/poly/poly_1305.h"],
  [("block function", D + "mac/poly/poly_1305_impl_sw.h"), ("key, final reduction", D + "mac/poly/poly_1305.h")],
  "abstract interpretation over polynomials with floor quotients, inductive bound of the limbs",
  "The portable block function (the only one), both pad bits and source types; key setup; the final step after a whole and "
  "after a partial block. The bound of the top limb is inferred and its preservation is part of the proof.")

P("P15", "Block functions compute the standard's function on any number of blocks",
  "For every chaining state, data and number of blocks, the portable SHA-1, SHA-2-256 and SHA-2-512 block functions leave "
  "exactly the standard's chaining value, and the ChaCha20 ones write exactly the keystream of the given counter onward, "
  "alone or combined with the source. They read and write within the blocks and the state only, work with source and "
  "destination the same, and report the number of blocks they did.",
  ["inputs"], "all states, blocks and block counts, zero included; all byte types",
  "tests compare a few digests; a constant, rotation or counter wrong for some block count or state slips through",
  [D + "hash/sha/sha_1_160_impl_sw.h", D + "hash/sha/sha_2_256_impl_sw.h", D + "hash/sha/sha_2_512_impl_sw.h",
   D + "cipher/chacha/chacha_impl_sw.h"],
  [("SHA-1", D + "hash/sha/sha_1_160_impl_sw.h"), ("SHA-2", D + "hash/sha/sha_2_256_impl_sw.h"), ("SHA-2-512", D + "hash/sha/sha_2_512_impl_sw.h"),
   ("ChaCha20", D + "cipher/chacha/chacha_impl_sw.h")],
  "abstract interpretation over canonical words (ANF of rotations, sums modulo 2^w), inductive loop state",
  "Formulas written from FIPS 180-4 and RFC 8439, constants computed from the primes.")

H = D + "hash/sha/"
C = D + "cipher/chacha/"

P("P16", "Accelerated block functions compute the standard's function too",
  "For every chaining state, data and number of blocks, the x86-64 SHA-1 and SHA-256 block functions leave exactly the standard's "
  "chaining value, and the SSSE3 and AVX2 ChaCha20 functions write exactly the keystream of the given counter onward, alone or "
  "combined with the source. They read and write within the blocks and the state only, work with source and destination the same, "
  "and report the number of blocks they did.",
  ["inputs"], "all states, blocks and block counts, zero included; both calling conventions; every stack alignment",
  "tests compare a few digests and never pass the counter's wrap, a large block count or an odd alignment",
  [H + "sha_1_160_impl_hw_x86_64.asm", H + "sha_2_256_impl_hw_x86_64.asm", C + "chacha_impl_hw_x86_64.asm", C + "chacha_impl_hw_x86_64.h"],
  [("SHA-1", H + "sha_1_160_impl_hw_x86_64.asm"), ("SHA-256", H + "sha_2_256_impl_hw_x86_64.asm"),
   ("ChaCha20", C + "chacha_impl_hw_x86_64.asm"), ("C++ side", C + "chacha_impl_hw_x86_64.h")],
  "abstract interpretation of disassembled machine code over canonical lanes, inductive loop state",
  "Instruction semantics written from the processor manual; formulas shared with P15.")

P("P17", "Assembly functions keep to the calling convention and to data-independent flow",
  "Every assembly function returns with the registers its calling convention reserves, the stack pointer and the upper vector halves "
  "as its caller relies on, for every number of blocks and stack alignment. It touches only its own stack frame and its arguments' "
  "memory, uses aligned accesses only at aligned addresses, and neither branches on nor addresses by secret data. The cpuid wrapper "
  "asks for exactly the leaf and subleaf given and stores the four answers in order.",
  ["inputs"], "all arguments, both calling conventions (System V and Windows), every stack alignment",
  "a clobbered register or misaligned access depends on the caller's compiler; only one convention can be tested on one machine",
  [H + "sha_1_160_impl_hw_x86_64.asm", H + "sha_2_256_impl_hw_x86_64.asm", C + "chacha_impl_hw_x86_64.asm",
   "src/milo/internal/arch/x86_64/cpuid.asm", "src/milo/internal/arch/x86_64/abi.asm"],
  [("prologues and epilogues", C + "chacha_impl_hw_x86_64.asm"), ("conventions", "src/milo/internal/arch/x86_64/abi.asm"),
   ("cpuid", "src/milo/internal/arch/x86_64/cpuid.asm")],
  "abstract interpretation of disassembled machine code: register/stack ownership, alignment, taint of flow",
  "The Windows convention is decided from the code assembled for it.")

P("P18", "Run-time selection never picks code the processor cannot run",
  "Whatever cpuid answers, a hash or cipher is carried out by an implementation all of whose instructions belong to extensions the "
  "processor reports in leaves it has, falling back to the portable code. All operations of a cipher are carried out by the same "
  "implementation, with the caller's own arguments. A preferred implementation is used where it is supported, one the caller insists "
  "on always.",
  ["configurations"], "all processors (cpuid answers); initialisation orders of static data; with and without assembly",
  "tests run on one processor, which supports everything or nothing",
  ["src/milo/internal/arch/x86_64.h", "src/milo/internal/impl.h", D + "cipher/impl.h", D + "hash/impl.h", C + "chacha_impl_hw_x86_64.h"],
  [("feature bits", "src/milo/internal/arch/x86_64.h"), ("selection", "src/milo/internal/impl.h"),
   ("requirements", C + "chacha_impl_hw_x86_64.h"), ("cipher choice", D + "cipher/impl.h")],
  "abstract interpretation with unknown cpuid answers; instruction-set audit of assembled code",
  "That the operating system saves the registers of a reported extension (XGETBV) is assumed; the library does not ask.")

P("P19", "Timing-relevant flow does not depend on secret or message bytes",
  "In hashing, authentication, key derivation, encryption and verification the portable code takes no branch, makes no choice and "
  "forms no address or length from the contents of keys, messages, digests or intermediate values; sizes alone decide. The one "
  "exception is the verdict on a whole supplied digest, given after all its bytes have been compared. Codecs are not included.",
  ["inputs", "histories"], "all contents, sizes and splits; every primitive's portable code and streaming layer",
  "timing differences do not change results, so no functional test can see them",
  ["src/milo/internal/memory.h", D + "mac/poly/poly_1305_impl_sw.h", C + "chacha_impl_sw.h", H + "sha_2_256_impl_sw.h",
   D + "mac/hmac/hmac.h", "src/milo/primitive/aead/apie.h"],
  [("comparison", "src/milo/internal/memory.h"), ("verdict", "src/milo/primitive/aead/apie.h"),
   ("field arithmetic", D + "mac/poly/poly_1305_impl_sw.h")],
  "taint of branch, select and address operands over abstractly interpreted LLVM IR",
  "Decided on the compiler's unoptimised output; assembly is decided by P17.")

P("P20", "Separate objects share no state; const functions leave theirs alone",
  "Using one object never affects another, in whatever order or on whatever threads they are used: the library keeps no modifiable memory "
  "outside its objects other than the choice of implementation made once at start-up. One-call functions keep nothing between calls. A "
  "function declared const only reads its object.",
  ["schedules", "histories"], "all interleavings of calls on different objects, on any number of threads; the whole public interface",
  "a buffer shared by accident shows only when two threads or two half-done messages meet in it",
  [D + "mac/hmac/hmac.h", D + "kdf/pbkdf_2.h", "src/milo/internal/impl.h", "src/milo/internal/arch/x86_64.h", "src/milo/primitive/codec/apie.h"],
  [("selection made once", "src/milo/internal/impl.h"), ("processor features", "src/milo/internal/arch/x86_64.h"),
   ("one-call functions", "src/milo/primitive/hash/apie.h")],
  "interprocedural effect analysis: escape and mutation of every global and of const objects (LLVM IR)",
  "The witness instantiates every overload of every class and one-call function; thorough: with every algorithm.")

P("P21", "Exceptions: nothing terminates, only milo::error and the container's own escape",
  "No call of the interface, whatever its arguments, ends the program because an exception met a function that promised not to throw. Calls on "
  "pointers and fixed sizes, and calls given an error by reference, throw nothing of the library's own; what the library throws is always "
  "milo::error. An exception thrown by a growing container reaches the caller.",
  ["fault_sequences", "inputs"], "all arguments; every allocation that fails; every overload of the interface",
  "tests never let an allocation fail, and a wrong noexcept changes nothing until one does",
  ["src/milo/primitive/codec/apie.h", "src/milo/primitive/aead/apie.h", "src/milo/primitive/cipher/apie.h", "src/milo/primitive/hash/apie.h",
   "src/milo/primitive/kdf/apie.h", "src/milo/error.h", "src/milo/container.h"],
  [("throwing and non-throwing overloads", "src/milo/primitive/aead/apie.h"), ("decode", "src/milo/primitive/codec/apie.h"),
   ("error", "src/milo/error.h")],
  "interprocedural exception-flow analysis over call graph and landing pads (LLVM IR)",
  "Every function reached from every overload; what escapes is compared with what the kind of overload may throw.")

P("P22", "Pointer and fixed-size interfaces allocate nothing and need bounded stack",
  "Calls with pointers and sizes or with containers of fixed size never allocate memory and call nothing outside the library but the "
  "compiler's memory functions, whatever the sizes are. The stack they need has a bound independent of the arguments: no recursion and no "
  "array of variable size.",
  ["inputs", "fault_sequences"], "all sizes, contents and histories; every overload on pointers and fixed sizes",
  "an allocation succeeds in tests, and one taken only for large inputs is never reached there",
  ["src/milo/internal/memory.h", D + "kdf/pbkdf_2.h", D + "kdf/hkdf.h", D + "codec/base_64.h", "src/milo/primitive/codec/apie.h", "src/milo/container.h"],
  [("whole call graph", "src/milo/internal/memory.h"), ("key derivation buffers", D + "kdf/pbkdf_2.h")],
  "interprocedural reachability over the call graph with indirect calls by signature (LLVM IR)",
  "All functions reached from the pointer, fixed-size and throwing fixed-size witnesses.")

P("P23", "Every documented use compiles, with gcc and clang, in any number of files",
  "Every program of the documentation and every overload with the containers and character types documented compiles with gcc and clang, with "
  "and without the assembly. Each public header compiles on its own, after itself and in any order with the others. What the headers define can "
  "be included in any number of translation units of one program, and nothing it needs is left undefined.",
  ["programs", "configurations"], "both compilers, C++20 and C++23, assembly on and off, both calling conventions, all header orders pairwise reversed",
  "the tests instantiate some overloads in one translation unit with one compiler, with every header included",
  ["README.md", "doc/reference.md", "src/milo/meta.h", "src/milo/option.h", "src/milo/container.h", "src/milo/primitive/aead/apie.h",
   "src/milo/primitive/hash/apie.h", "src/milo/primitive/kdf/apie.h"],
  [("type requirements", "src/milo/meta.h"), ("examples", "doc/reference.md"), ("options", "src/milo/option.h")],
  "type-checked witness programs (g++ and clang++ -fsyntax-only) and linkage audit of all definitions",
  "96 programs quick; thorough adds all algorithms. Programs are only type-checked, never linked or run; what they use is matched with what headers and assembly define.")

P("P24", "Misuse the types can tell does not compile",
  "A program that asks for more bytes than an algorithm has, passes elements that are not bytes, writes results into constants, uses a fixed "
  "size where it cannot be known, gives an algorithm of the wrong kind, takes an error as an integer or leaves out a key is rejected by "
  "the compiler. The program that differs in that one respect only is accepted.",
  ["programs"], "each kind of misuse at each class and one-call function of the interface",
  "a test that must not compile cannot be part of a test program, so a constraint that is lost goes unnoticed",
  ["src/milo/meta.h", "src/milo/primitive/hash/apie.h", "src/milo/primitive/mac/apie.h", "src/milo/primitive/aead/apie.h",
   "src/milo/primitive/codec/apie.h", "src/milo/option.h", "src/milo/error.h"],
  [("constraints", "src/milo/meta.h"), ("size limits", "src/milo/primitive/hash/apie.h"), ("error", "src/milo/error.h")],
  "compile-fail witnesses paired with compiling twins (g++ and clang++)",
  "113 pairs, and each argument of each call of the interface with each kind of thing it must not be: 1,200 misuses, each rejected by both compilers while its twin is accepted.")
