#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
F = [
    ("C28", "recursion:crypto_sign_keypair", "the JavaScript export crypto_sign_keypair (jsdilwrapper.cpp) calls itself until the stack overflows, for every argument"),
    ("C28", "recursion:crypto_kem_keypair", "the JavaScript export crypto_kem_keypair (jskybwrapper.cpp) calls itself until the stack overflows, for every argument"),
]
X = [
    ("C01 C05 C27", "2f907ab", "signing or verifying a message of a few megabytes copied it to the stack and crashed"),
    ("C25 C13 C05 C20", "ddfa209", "Winternitz parameters whose digits do not divide a byte were accepted: keys that sign nothing properly, out of bounds reads"),
    ("C13", "e7ae12b", "the top bits of the Winternitz checksum were shifted out when it fills whole bytes (w=256): forgeable signatures"),
    ("C08", "eaeb810", "the signature scheme of a descriptor was decoded from all eight bits above the hash function"),
    ("C25 C05", "fd2f5e3", "hash functions and signature schemes that do not exist were accepted: unset memory used as hashes"),
    ("C25", "29863ed", "tree heights above 30 were accepted although indices and descriptors cannot hold them"),
    ("C20", "2964f98", "getHeightFromSigSize wrapped for heights above 254"),
    ("C02 C20 C23", "5d9025b", "signers signed with, and moved to, indices outside the tree (leaf reuse by wrapping)"),
    ("C09", "e82c16b", "mnemonics with repeated, leading or trailing blanks were counted wrongly, and odd word counts accepted"),
    ("C29", "2e25f49", "xmss_updateSK truncated an index of more than 32 bits and so rewound the key"),
    ("C26", "7d987dc", "a copied fast signer shared or lost its traversal state with the original: wrong signatures, use after free"),
    ("C21", "228ba4a", "Dilithium keys and signed messages of a wrong size were read out of bounds"),
    ("C22", "9b71dd2", "Kyber public keys and ciphertexts of a wrong size were read out of bounds"),
    ("C28", "52df7b5", "the JS Dilithium extract_message mixed iterators of two temporaries"),
    ("C18", "5d910c5", "the JS seed generator returned a shorter array than asked for with a fractional size"),
    ("C24 C23 C12 C19", "788e203", "the Rust SHAKE functions hashed only the start of inputs longer than a block"),
    ("C23 C25", "1944606", "the Rust signer accepted Winternitz parameters it computes wrongly"),
    ("C21 C22", "624cfdc", "the Rust Dilithium and Kyber constructors panicked on keys of a wrong size"),
    ("C21", "0f241c8", "the Rust extract_message and extract_signature split signed messages at the wrong place"),
    ("C27", "4fe6970", "bin2hstr and bin2mnemonic returned truncated text when memory ran out"),
    ("C27", "24d0bfc", "running out of memory while a SHA2-256 fast signer signed or moved left its traversal state half updated: wrong later signatures"),
    ("C28", "a07f1f7", "keys restored in JavaScript from a seed whose descriptor names another signature scheme or address format were not refused or not the library's"),
]
out = {"findings": [dict(property=p, key=k, text=t) for p, k, t in F], "fixed": [f"fixed: property={p} {c} {t}" for ps, c, t in X for p in ps.split()]}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1); f.write("\n")
