#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": None}})

prop("C01", "Every signature a signer issues verifies under its public key",
 "For every supported hash function, Winternitz parameter, tree height and leaf index, a signature returned by a signer for any message (of any length, including empty) is accepted by verification with that signer's public key, that message and the same Winternitz parameter. The signature has exactly the size the library announces and begins with the index it consumed.",
 ["inputs", "configurations", "histories"],
 "all hash functions x Winternitz parameters {2,4,16,256} x even heights x every leaf index x message lengths around every hash-block boundary up to megabytes",
 "The stable suite holds one sign/verify smoke run without an assertion; the gtest files sample one seed, 2-3 heights and a 32-byte message. The claim is over all indices, lengths and parameter sets.",
 ["src/qrl/xmssBase.cpp", "src/qrl/xmssBasic.cpp", "src/qrl/xmssFast.cpp", "src/xmss-alt/algsxmss.c", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/xmss_common.c", "src/xmss-alt/wots.c", "src/xmss-alt/hash.c"],
 [("sign then root reconstruction", "xmss_Signmsg / xmssfast_Signmsg / xmss_Verifysig"), ("one-time signature chains", "wots_sign / wots_pkFromSig")],
 ["sign() return value", "XmssBase::verify"],
 [("secret key index", "next leaf to use", "sk[0..3]"), ("BDS state", "precomputed authentication path", "XmssFast::_state")])

prop("C02", "No one-time leaf is ever signed twice and indices never leave the tree",
 "Over any sequence of sign and set-index requests, including refused ones, a fast signer uses each leaf index at most once, in strictly increasing order, and refuses to rewind or to jump past its last leaf. Neither signer accepts an index outside its tree or ever issues a signature for one: once all leaves are used, signing is refused and keeps being refused. A refused request changes nothing: the current index and everything signed afterwards are as if it had not been made.",
 ["histories"],
 "all operation sequences (sign, set-index to every boundary-relevant value, queries) over the reachable signer states of small trees, plus every (state, operation) pair of larger ones",
 "Tests walk one increasing index sequence; reuse, rewinding and exhaustion are properties of all histories.",
 ["src/qrl/xmssFast.cpp", "src/qrl/xmssBasic.cpp", "src/qrl/xmssBase.cpp", "src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/algsxmss.c"],
 [("range and rewind test", "xmssfast_update"), ("index incremented with every signature", "xmss_Signmsg / xmssfast_Signmsg"), ("range test before signing", "XmssFast::sign via setIndex")],
 ["index field of issued signatures", "getIndex / getRemainingSignatures", "exceptions"],
 [("index", "number of leaves consumed", "sk[0..3]")])

prop("C03", "Fast signer output depends only on seed, index and message, not on history",
 "Whatever path of signing, index jumps and read-only queries led a fast signer to a given index, the signature it then issues is byte-for-byte the one an independent signer computing the whole tree from scratch issues for that seed, index and message. The basic and the fast signer are interchangeable: same keys, same address and same signatures.",
 ["histories", "configurations"],
 "every reachable (index) state and every transition sign / jump i->j between indices of trees up to the bound, all hash functions, odd traversal corners at every height up to the bound",
 "xmssComparison tests compare one straight-line walk; the incremental traversal state has to be right after every combination of jumps and at every subtree boundary.",
 ["src/xmss-alt/algsxmss_fast.c", "src/xmss-alt/algsxmss.c", "src/qrl/xmssFast.cpp", "src/qrl/xmssBasic.cpp"],
 [("BDS traversal", "bds_round / bds_treehash_update / treehash_update"), ("initial traversal state", "treehash_setup")],
 ["sign() bytes", "getPK/getAddress"],
 [("auth, keep, retain, stack, treehash", "incremental traversal state", "bds_state")])

prop("C04", "A changed message, signature or public key never verifies",
 "For a valid (message, signature, public key) triple, changing any bit of the message, of the signature or of the key part of the public key, truncating or extending the message or signature, using the signature under another index, another key, another hash function, another declared height or another Winternitz parameter makes verification return false.",
 ["inputs"],
 "every single-bit change of signature, message and key, every byte-value change at structural positions, every truncation and extension within the bound, every swap of chain/path blocks and every cross-combination of keys, indices, hash functions and parameters",
 "Tests flip one or two bytes of one signature.",
 ["src/qrl/xmssBase.cpp", "src/xmss-alt/xmss_common.c", "src/xmss-alt/wots.c", "src/xmss-alt/hash.c"],
 [("all signature parts feed the root", "xmss_Verifysig, wots_pkFromSig, l_tree, validate_authpath"), ("full root comparison", "xmss_Verifysig"), ("size and height checks", "XmssBase::verify")],
 ["XmssBase::verify result"])

prop("C05", "Verification is total: any bytes give a verdict, never a crash or bad access",
 "Verification of arbitrary message, signature and public-key byte strings of any length, with any Winternitz parameter, returns true or false: it never crashes, throws, hangs, reads or writes outside its inputs, or lets uninitialised memory influence the verdict. Its verdict is a function of its inputs alone and its inputs are left unmodified. Malformed sizes, descriptors naming an unsupported hash function, signature scheme or height, and unsupported Winternitz parameters are answered false.",
 ["inputs"],
 "every signature length up to beyond the maximum, every public-key length around the legal one, all 65536 leading descriptor byte pairs, every Winternitz parameter 0..65536 and extremes, messages up to tens of megabytes; under address and undefined-behaviour sanitizers",
 "The tests call verification with well-formed sizes and one short key.",
 ["src/qrl/xmssBase.cpp", "src/qrl/qrlDescriptor.h", "src/xmss-alt/xmss_common.c", "src/xmss-alt/wots.c", "src/xmss-alt/hash.c"],
 [("argument checks translated into false", "XmssBase::verify")],
 ["XmssBase::verify result, sanitizer reports"])

prop("C06", "Keys and signatures conform to XMSS with the QRL key derivation, bit for bit",
 "For every 48-byte seed, supported hash function, Winternitz parameter and height, the secret seeds, public seed, root, public key and every signature equal those defined by the XMSS construction (domain-separated hashing, addressed keys and bitmasks, L-trees, Winternitz chains with checksum) with the three seeds expanded from the 48-byte seed by SHAKE256. Verification accepts exactly the signatures whose recomputed root equals the public root, for every height the public key format can declare.",
 ["inputs", "configurations"],
 "agreement with an independently written reference on every node, leaf and index of trees up to the bound, all parameter sets; verification on synthetic trees of every declarable height at boundary indices",
 "Known-answer tests pin a few roots and one signature per hash function; interoperability is a claim about all of them.",
 ["src/xmss-alt/*.c", "src/qrl/xmssBase.cpp"],
 [("key expansion", "xmss_Genkeypair / xmssfast_Genkeypair"), ("addressed hashing", "hash_f / hash_h / prf / h_msg"), ("address layout", "hash_address.c")],
 ["getPK, getSK, getRoot, sign(), verify()"])

prop("C07", "A key is fully restored from its extended seed, hex seed or mnemonic",
 "For every representable key configuration and every seed, the extended seed survives conversion to hexadecimal or mnemonic text and back unchanged, and a signer built from it has the same height, hash function, address format, public key, secret key, address and signatures as the original. Extended seeds of any other length are refused.",
 ["inputs", "configurations"],
 "every byte value at every seed position through both text encodings, all hash functions x heights for reconstruction, every length 0..120 for refusal",
 "Tests restore one or two fixed seeds.",
 ["src/qrl/xmssBase.cpp", "src/qrl/misc.cpp", "src/qrl/qrlDescriptor.h", "src/qrl/xmssFast.cpp"],
 [("descriptor prefix + 48-byte seed", "XmssBase::getExtendedSeed, XmssBase(extended_seed)")],
 ["getExtendedSeed, constructors, getPK/getAddress/sign"])

prop("C08", "The key descriptor encodes and decodes without loss",
 "Decoding any three descriptor bytes yields exactly the hash function, signature scheme, height and address format held in the documented bit fields, and re-encoding the decoded value restores both field bytes (the reserved third byte becomes zero). Every descriptor built from representable field values decodes to the same values, no field affects another, and inputs of any other length are refused with an error.",
 ["inputs"],
 "all 2^24 three-byte descriptors, all representable field combinations, all other lengths up to the bound, in both language implementations",
 "The existing tests decode three descriptors.",
 ["src/qrl/qrlDescriptor.h", "src/rust_wrapper/qrl/qrl_descriptor.rs"],
 [("bit-field packing", "QRLDescriptor::getBytes / fromBytes")],
 ["getters and getBytes of the decoded descriptor"])

prop("C09", "Mnemonic encoding is a bijection and rejects everything else",
 "The word list has 4096 distinct, non-empty words without white space; every byte string whose length is a multiple of three, including the empty one, becomes a mnemonic that decodes to the same bytes, and different byte strings give different mnemonics. Encoding any other length, and decoding text with an unknown word or an odd number of words, however the words are separated, is refused with an error rather than producing wrong bytes.",
 ["inputs"],
 "all 4096 words at every word position, all 2^24 three-byte groups, every length, every word count with separators from a white-space alphabet",
 "The tests use a handful of fixed phrases.",
 ["src/qrl/misc.cpp", "src/qrl/wordlist.cpp", "src/rust_wrapper/qrl/misc.rs", "src/rust_wrapper/qrl/wordlist.rs"],
 [("12-bit packing", "bin2mnemonic / mnemonic2bin"), ("word count parity check", "mnemonic2bin")],
 ["returned text and bytes, exceptions"])

prop("C10", "Hexadecimal encoding round-trips and rejects malformed text",
 "Every byte string encodes to lower-case hexadecimal text, two digits per byte, that decodes to the same bytes; decoding accepts either letter case, and refuses odd lengths and any non-hexadecimal character with an error. Line wrapping inserts a line break between consecutive groups of the requested number of bytes and changes nothing else.",
 ["inputs"],
 "all byte pairs, all 65536 two-character strings at every parity position, every length and wrap width up to the bound",
 "Tests convert a few fixed strings.",
 ["src/qrl/misc.cpp"],
 [("digit conversion and validation", "bin2hstr / hstr2bin / getHexValue")],
 ["returned text and bytes, exceptions"])

prop("C11", "Addresses commit to the whole public key and every mistyped one is rejected",
 "The address of an extended public key is its descriptor, the SHA2-256 of the whole extended key and the last four bytes of the SHA2-256 of those two parts, and such an address is always valid. An address of the wrong length, with an unsupported address format, or with any single byte changed is invalid, and keys of the wrong length or with an unsupported address format are refused.",
 ["inputs"],
 "every single-bit and single-byte change at every position, every length 0..100, all descriptors, keys differing in each single byte",
 "Tests check one or two addresses and a few corrupted ones.",
 ["src/qrl/qrlHelper.h", "src/qrl/xmssBase.cpp"],
 [("checksum construction", "QRLHelper::getAddress"), ("checksum comparison", "QRLHelper::addressIsValid")],
 ["getAddress, addressIsValid"])

prop("C12", "SHAKE128, SHAKE256 and SHA2-256 are computed correctly for every length",
 "For every input length and every output length the hash functions exposed to users and used internally return the FIPS 202 / FIPS 180-4 digest of exactly the given bytes, do not modify their input and write exactly the requested number of output bytes. Iterated SHA2-256 applied n times equals n nested applications for every n of at least one, and a count of zero is refused.",
 ["inputs"],
 "all input lengths over several rate blocks x all output lengths over several rate blocks, long inputs, every byte value and every byte position within a block; both language implementations",
 "Known-answer tests cover a few short strings, none crossing a sponge block.",
 ["src/xmss-alt/fips202.c", "src/qrl/hashing.cpp", "src/shasha/shasha.cpp", "src/rust_wrapper/xmss_alt/fips202.rs", "src/rust_wrapper/qrl/hashing.rs"],
 [("sponge absorb/squeeze", "keccak_absorb / keccak_squeezeblocks")],
 ["digest bytes"])

prop("C13", "No two messages' one-time signatures dominate each other (Winternitz checksum)",
 "For every Winternitz parameter accepted by the library, the chain positions revealed for one message digest are never all at or below those revealed for a different digest, so no signature can be advanced into a signature of another message. The one-time signature computed by signing and the public key recomputed by verification use the same positions, and parameters for which this cannot be guaranteed are refused.",
 ["inputs", "configurations"],
 "all accepted parameters; for each, every single digit value at every digit position, every reachable checksum value, and all digest pairs from a domination-critical family; forgery attempts advancing chains",
 "Tests only check that honest signatures verify for two parameters; absence of dominating pairs is a statement over all pairs of digests.",
 ["src/xmss-alt/wots.c", "src/qrl/xmssBase.cpp"],
 [("checksum digits", "wots_sign / wots_pkFromSig")],
 ["one-time signatures and recomputed keys; verify() on advanced signatures"])

prop("C14", "The tree pool hands out every index exactly once under every interleaving",
 "However calls from several threads and the background tree builders interleave, consecutive trees come out in index order starting at the configured index, each index goes to exactly one caller, each tree is the one derived from the base seed and that index at the configured height, the reported current index equals the starting index plus the number of trees claimed, and every call returns. Asking whether a tree is available never waits for tree generation, is false for an empty pool and true once the next tree is ready, and there is no data race.",
 ["schedules", "configurations"],
 "all interleavings up to the preemption bound of 1-3 client threads with the background builders, for pool sizes 0..3 and several starting indices",
 "The gtest runs some threads under the OS scheduler and sees a handful of interleavings.",
 ["src/qrl/xmssPool.cpp", "src/qrl/xmssPool.h"],
 [("mutex around claim and refill", "XmssPool::getNextTree"), ("per-index seed derivation", "XmssPool::prepareTree")],
 ["getNextTree results per thread, getCurrentIndex, isAvailable"],
 [("cache", "futures of the next trees in index order", "XmssPool::_cache"), ("current index", "next index to hand out", "XmssPool::_current_index")])

prop("C15", "A failing pool never repeats an index, returns a wrong tree or hangs",
 "When creating a background builder fails or building a tree fails at any point, the affected call reports an error or delivers the correct tree; no index is ever handed out twice, no later caller receives a tree of another index, and no thread waits forever. Once the fault is over, the pool keeps serving correct trees.",
 ["fault_sequences", "schedules"],
 "every single and double failure position among thread creations and tree constructions in bounded call sequences, crossed with interleavings",
 "No test injects a failure.",
 ["src/qrl/xmssPool.cpp"],
 [("exceptions stored in futures", "std::async in XmssPool::fillCache")],
 ["getNextTree results and exceptions"])

prop("C16", "Independent objects can be used concurrently without affecting each other",
 "Operations on distinct signers, and free functions (verification, hashing, encoding, descriptors, addresses), may run concurrently in different threads or be interleaved arbitrarily in one thread: each gives the result it gives alone, and there is no data race on hidden shared state.",
 ["schedules", "histories"],
 "all ordered pairs from the alphabet of public operations run in two unsynchronised threads with a happens-before race detector, and all interleavings of operation sequences of two objects up to the bound",
 "Tests are single threaded outside the pool and use one object at a time.",
 ["src/qrl/*.cpp", "src/xmss-alt/*.c", "src/shasha/shasha.cpp"],
 [("no mutable globals; all state in the object", "whole library")],
 ["results of the operations, race reports"])

prop("C17", "Random seeds fail closed when the entropy source misbehaves",
 "A random seed request either returns exactly the requested number of bytes, derived with SHAKE256 from that many bytes of the system entropy source followed by all of the caller's extra entropy, or fails with an error. If the source cannot be opened, ends early or fails while reading, no seed is returned; a source that delivers in small pieces or is interrupted does not shorten the entropy used.",
 ["fault_sequences", "inputs"],
 "every sequence of source answers (full, each partial size, end of file, error, interruption, open failure) up to the bound x seed sizes and extra-entropy strings",
 "Tests only ever see a healthy /dev/urandom.",
 ["src/qrl/misc.cpp"],
 [("stream state checks", "getRandomSeed")],
 ["returned bytes or exception; bytes consumed from the source"])

prop("C18", "The JavaScript seed generator uses only secure randomness or throws",
 "For every requested size and every platform environment, the JavaScript seed generator returns exactly the requested number of bytes, each the byte produced by the platform's secure generator, or throws: it throws for sizes that are not positive integers, when no secure generator is present, when the generator fails, and when sixteen or more bytes come back all zero. The default request is 48 bytes.",
 ["configurations", "inputs", "fault_sequences"],
 "all combinations of presence/shape of the three global objects, generator behaviours and size arguments from a boundary alphabet",
 "No stable test runs the JavaScript glue; failures need environments a browser test never has.",
 ["src/jswrapper/getRandomSeed.js"],
 [("environment detection and all-zero tripwire", "Module.getRandomSeed")],
 ["returned vector or exception"])

prop("C19", "Hash-chain seeds are position-stable, distinct and correctly derived",
 "The hash-chain seed at position i is the 32-byte SHAKE256 of the seed followed by the shift and i as 32-bit little-endian numbers; the call returns exactly the requested number of entries, a shorter request is a prefix of a longer one, the seed is not modified, and different positions, shifts or seeds give different entries.",
 ["inputs"],
 "all positions up to beyond 65536, shifts at every byte boundary, seed lengths over several sponge blocks",
 "Tests pin a few entries with small positions.",
 ["src/qrl/misc.cpp"],
 [("little-endian position suffix", "getHashChainSeed")],
 ["returned entries"])

prop("C20", "Size, height and signature-count arithmetic is consistent and never wraps",
 "For every supported Winternitz parameter the announced signature size is 4+32+32*(chains+height) bytes with the chain count XMSS prescribes, deriving a height from a signature size inverts it for every height up to 254, and every other size is refused instead of giving a wrong height. The counts of total and remaining signatures satisfy remaining = 2^height - index for every index, and key sizes are the announced ones.",
 ["inputs", "configurations"],
 "every signature size from 0 to beyond the largest legal one and around multiples of 256 heights, all supported Winternitz parameters, all indices of bounded trees",
 "Tests check a few sizes.",
 ["src/qrl/xmssBase.cpp", "src/qrl/xmssBase.h", "src/xmss-alt/wots.c"],
 [("size arithmetic", "calculateSignatureBaseSize / getHeightFromSigSize / getSignatureSize")],
 ["returned numbers and exceptions"])

prop("C21", "The Dilithium wrapper is faithful to the reference scheme and safe on any input",
 "Keys, signed messages and verdicts produced through the Dilithium wrapper are exactly those of the underlying reference functions; opening a signed message succeeds only when the reference accepts it, and extracting signature and message returns its two parts. Keys, signed messages and public keys of any wrong length are refused with an error or a negative verdict without reading or writing outside the given data.",
 ["inputs", "fault_sequences"],
 "all lengths of keys, messages and signed messages around the legal ones with a recording stand-in for the reference functions, all its return values, under the address sanitizer",
 "Tests only use honest sizes; the reference implementation is not even present in the offline build.",
 ["src/dilithium/dilithium.cpp", "src/dilithium/dilithium.h", "src/jswrapper/jsdilwrapper.cpp"],
 [("size handling and return code mapping", "Dilithium::sign / sign_open / extract_*")],
 ["wrapper results, calls and buffers seen by the reference stand-in"])

prop("C22", "The Kyber wrapper is faithful to the reference scheme and safe on any input",
 "Key pairs, ciphertexts, shared keys and verdicts produced through the Kyber wrapper are exactly those of the underlying reference functions, encapsulation and decapsulation succeed only when those report success. Keys, public keys and ciphertexts of any wrong length are refused with an error or a negative verdict without reading or writing outside the given data.",
 ["inputs", "fault_sequences"],
 "all lengths of keys and ciphertexts around the legal ones with a recording stand-in for the reference functions, all its return values, under the address sanitizer",
 "Tests only use honest sizes; the reference implementation is not even present in the offline build.",
 ["src/kyber/kyber.cpp", "src/kyber/kyber.h", "src/jswrapper/jskybwrapper.cpp"],
 [("size handling and return code mapping", "Kyber::kem_encode / kem_decode")],
 ["wrapper results, calls and buffers seen by the reference stand-in"])

prop("C23", "The Rust signer and verifier agree with the C++ ones byte for byte",
 "For the same seed, height, hash function, Winternitz parameter and history of sign and set-index operations, the Rust signers produce the same keys, addresses, indices, refusals and signatures as the C++ signers, and Rust verification accepts exactly the same (message, signature, key) triples for well-formed inputs, for messages of every length.",
 ["inputs", "histories", "configurations"],
 "all hash functions and parameters, every index transition of small trees, message lengths across several sponge blocks, tampered triples",
 "The Rust XMSS tests need crates that are absent and pin a few vectors.",
 ["src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/qrl/xmss_fast.rs", "src/rust_wrapper/qrl/xmss_basic.rs", "src/rust_wrapper/xmss_alt/*.rs"],
 [("line-by-line port of the C code", "src/rust_wrapper/xmss_alt")],
 ["Rust API results vs. reference"])

prop("C24", "The Rust encoders, hashes, descriptors and addresses agree with the C++ ones",
 "The Rust hash functions, hexadecimal and mnemonic conversions, word list, descriptor codec, address derivation and validation and hash-chain seeds return the same results as their C++ counterparts on every well-formed input (text in ASCII; descriptors naming a hash function, signature scheme and address format that exist), and report an error instead of panicking on every malformed input of the text and descriptor decoders.",
 ["inputs"],
 "the bounded exhaustive input families of the C++ checks replayed against the Rust crate",
 "The stable Rust tests decode three descriptors.",
 ["src/rust_wrapper/qrl/misc.rs", "src/rust_wrapper/qrl/hashing.rs", "src/rust_wrapper/qrl/qrl_descriptor.rs", "src/rust_wrapper/qrl/qrl_helper.rs", "src/rust_wrapper/qrl/wordlist.rs", "src/rust_wrapper/xmss_alt/fips202.rs"],
 [("ports of misc.cpp, fips202.c, qrlDescriptor.h, qrlHelper.h", "src/rust_wrapper")],
 ["Rust API results vs. reference"])

prop("C25", "Signers are only created for valid parameters; everything else is refused",
 "Creating a signer succeeds exactly for 48-byte seeds, even heights from 4 to 30 (the largest the key format can declare), the three supported hash functions and Winternitz parameters whose digits divide a byte evenly and carry a sound checksum; every other seed length, height, hash-function or Winternitz value, and every extended seed naming an unsupported hash function, signature scheme or height, is refused with an invalid-argument error, never with a crash or a half-built object.",
 ["inputs", "configurations"],
 "every seed length 0..200, every height value that is invalid, all 16 hash-function codes, Winternitz parameters 0..1024 and extremes",
 "Tests try a few bad seeds and one bad height.",
 ["src/qrl/xmssBase.cpp", "src/qrl/xmssBasic.cpp", "src/qrl/xmssFast.cpp", "src/xmss-alt/xmss_common.c", "src/xmss-alt/wots.c"],
 [("constructor argument checks", "XmssBase / XmssBasic / XmssFast constructors")],
 ["constructor success or exception"])

prop("C26", "Copied and moved signers are complete and independent",
 "A copied, assigned or moved signer continues exactly where its source stood: same keys, index and subsequent signatures. Afterwards source and copy do not influence each other, whichever is used or destroyed first.",
 ["histories"],
 "all interleavings up to the bound of copy/assign/move/destroy and sign/jump operations on two signers, at every index of small trees, under the address sanitizer",
 "No test copies a signer.",
 ["src/qrl/xmssFast.h", "src/qrl/xmssBase.h"],
 [("value members plus traversal-state pointers", "XmssFast members")],
 ["signatures and keys of both objects"])

prop("C27", "Running out of memory never corrupts a signer or reuses a leaf",
 "If any single memory allocation fails during construction, signing, index changes, verification or encoding, the operation reports the failure; verification never accepts because of it, no leaf index is signed twice, and the signer's later signatures are the correct ones for their indices.",
 ["fault_sequences", "histories"],
 "every allocation-failure position of every operation, at every index of small trees, followed by further signing",
 "No test injects allocation failures.",
 ["src/qrl/xmssFast.cpp", "src/qrl/xmssBasic.cpp", "src/qrl/xmssBase.cpp", "src/xmss-alt/algsxmss_fast.c"],
 [("exceptions before the state changes", "sign()")],
 ["exceptions, subsequent signatures"])

prop("C28", "The JavaScript bindings expose the library's behaviour unchanged",
 "Every function and class method exported to JavaScript returns what the corresponding library operation returns for the same arguments: keys, addresses ('Q' plus hexadecimal), seeds, mnemonics, descriptors, hashes, signatures and verdicts. Keys restored through the hexadecimal or mnemonic constructors are the original keys, and malformed text arguments are refused with an error rather than read out of bounds.",
 ["inputs", "configurations"],
 "every exported entry point x configurations and boundary inputs (all text lengths around the legal ones) compared with the library, under the address sanitizer",
 "JavaScript tests need an emscripten build that cannot run here, and sample one key.",
 ["src/jswrapper/jsqrlwrapper.cpp", "src/jswrapper/jsdilwrapper.cpp", "src/jswrapper/jskybwrapper.cpp"],
 [("embind wrappers", "EMSCRIPTEN_BINDINGS")],
 ["values returned by the exported functions"])

prop("C29", "The raw secret-key index only ever moves forward",
 "The low-level key update for secret keys sets the stored index to the requested one exactly when it is larger than the current one and fits the stored 32-bit index, and otherwise reports failure and leaves the key unchanged; no other byte of the key is ever touched. Low-level signing advances the stored index by exactly one and leaves all key material as it was.",
 ["inputs", "histories"],
 "all pairs of old and new index from a boundary family covering every byte of the 32-bit index, and all sign/update sequences on a small tree",
 "No test calls the low-level key update.",
 ["src/xmss-alt/algsxmss.c"],
 [("index comparison", "xmss_updateSK"), ("index increment", "xmss_Signmsg")],
 ["secret-key bytes and return codes"])

prop("C30", "The Rust tree pool hands out every tree once, in order",
 "Whatever its size and starting index, the Rust tree pool hands out consecutive trees in index order starting at the configured index, each exactly once and each the tree derived from the base seed and its index at the configured height. The reported current index is the starting index plus the number of trees claimed. An empty pool never reports a tree as available; any other eventually does. When trees cannot be built, every call reports an error, nothing panics or hangs, and the index never moves backwards.",
 ["configurations", "histories"],
 "pool sizes x starting indices (decimal and binary carry boundaries up to the 64-bit limit) x base seed lengths x numbers of claimed trees, and every height that cannot be built",
 "One Rust test takes a few trees from a pool of one size starting at one index.",
 ["src/rust_wrapper/qrl/xmss_pool.rs"],
 [("cache refill", "XMSSPool::fill_cache"), ("hand-out", "XMSSPool::get_next_tree"), ("derivation", "XMSSPool::prepare_tree")],
 ["seed, public key and signature of each tree; current index; availability"])

prop("C31", "Rust verification is total: any bytes give a verdict, never a panic",
 "Rust verification of arbitrary message, signature and public-key byte strings of any length, with any Winternitz parameter, returns success or an error: it never panics, overflows or hangs, leaves its message unmodified, and its verdict is a function of its inputs alone. Malformed sizes, descriptors naming an unsupported hash function, signature scheme or height, and unsupported Winternitz parameters are refused with an error.",
 ["inputs"],
 "all signature lengths beyond the maximum, all key lengths to 200, all 65536 descriptor prefixes, Winternitz parameters to 65540 and around every power of two, message lengths across sponge blocks and to tens of megabytes, calls in every order",
 "The Rust tests verify a few well-formed signatures.",
 ["src/rust_wrapper/qrl/xmss_base.rs", "src/rust_wrapper/qrl/qrl_descriptor.rs", "src/rust_wrapper/xmss_alt/xmss_common.rs", "src/rust_wrapper/xmss_alt/wots.rs"],
 [("size and descriptor checks", "XMSSBaseTrait::verify"), ("root computation", "xmss_verify_sig")],
 ["verdict of the Rust verifier vs. the reference verdict"])

# Scope of the properties that both libraries, or only one of them, promise.
RS = "src/rust_wrapper/"
BOTH = {"C01": ["xmss_alt/algsxmss.rs", "xmss_alt/algsxmss_fast.rs"], "C02": ["qrl/xmss_fast.rs", "qrl/xmss_basic.rs", "xmss_alt/algsxmss_fast.rs"],
        "C03": ["xmss_alt/algsxmss_fast.rs"], "C04": ["qrl/xmss_base.rs", "xmss_alt/xmss_common.rs"], "C06": ["xmss_alt/algsxmss.rs", "xmss_alt/wots.rs", "xmss_alt/hash.rs"],
        "C07": ["qrl/xmss_base.rs", "qrl/misc.rs"], "C08": ["qrl/qrl_descriptor.rs"], "C09": ["qrl/misc.rs"], "C10": ["qrl/misc.rs"], "C11": ["qrl/qrl_helper.rs"],
        "C12": ["shasha/shasha.rs", "xmss_alt/fips202.rs"], "C13": ["xmss_alt/wots.rs"], "C17": ["qrl/misc.rs"], "C19": ["qrl/misc.rs"], "C20": ["qrl/xmss_base.rs"],
        "C21": [], "C22": [], "C25": ["qrl/xmss_base.rs", "xmss_alt/wots.rs"], "C29": ["xmss_alt/algsxmss_fast.rs"]}
CPP = {"C05": "the C++ library (C31 is its counterpart for Rust)", "C14": "the C++ pool (C30 is its counterpart for Rust)", "C15": "the C++ pool (C30 is its counterpart for Rust)",
       "C26": "the C++ signers", "C27": "the C++ library"}
for p in P:
    if p["id"] in BOTH:
        p["statement"] += " This holds for the C++ library and for the Rust library."
        have = p["anchors"]["files"]
        have += [RS + f for f in BOTH[p["id"]] if RS + f not in have]
        for f in BOTH[p["id"]]: assert os.path.exists("/repo/" + RS + f), f
    if p["id"] in CPP: p["statement"] += " This concerns " + CPP[p["id"]] + "."

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
