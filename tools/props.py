"""Single source for properties.jsonl and MANIFEST.json (run tools/mk.py)."""
P = []


def p(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, observe=observe))


p("C01", "AEAD decryption succeeds only if the entire tag matched",
  "Decrypting with AES-GCM, ChaCha20-Poly1305 or XChaCha20-Poly1305 returns success only after the complete tag supplied by the caller has been compared equal to a tag computed with this key and nonce over the whole associated data, the whole ciphertext as received and both their lengths. "
  "No input length, CPU variant or other branch reaches success without that comparison covering all of those bytes.",
  ["inputs", "configurations"], "all keys, nonces, AADs, ciphertexts (every length class), tags, and both architectures' code paths",
  "Known-answer and Wycheproof tests sample a few lengths and mostly corrupt one byte; they do not visit every branch x length x CPU path, nor partially-covered inputs.",
  ["graviola/src/mid/aes_gcm.rs", "graviola/src/mid/chacha20poly1305.rs", "graviola/src/mid/xchacha20poly1305.rs", "graviola/src/low/x86_64/aes_gcm.rs", "graviola/src/low/aarch64/aes_gcm.rs", "graviola/src/low/generic/ct_equal.rs"],
  [("AesGcm::decrypt / ChaCha20Poly1305::decrypt / XChaCha20Poly1305::decrypt compare then release", "graviola/src/mid")],
  "path-sensitive guard and provenance dataflow over MIR",
  "Every abstract path to Ok in each decrypt is shown to be dominated by a full-length tag equality whose computed side depends on whole AAD, whole ciphertext, lengths, nonce, key. Three layers are then taken apart, each against the layer below held opaque: the compared 16 bytes must be a MAC over exactly AAD, padding, ciphertext as received, padding and both 64-bit lengths under the per-message key; the AES-GCM kernels (each CPU variant) and Ghash::add must absorb every 16-byte block once and in order; each for every residue of the lengths and every threshold that occurs in the abstract terms, with loops folded by element. Trusts the field multiplications, Poly1305 and the AES block to compute what they are named for.")

p("C02", "Failed AEAD decryption releases no unauthenticated plaintext",
  "Whenever AEAD decryption reports failure, every byte of the caller's in-place buffer is zero, or is still exactly the ciphertext the caller passed in; no decrypted byte is left behind on any failing path.",
  ["inputs", "configurations"], "all inputs on which decryption returns an error, every buffer length, both architectures",
  "Tests check a failing case or two at fixed lengths, and look at the returned error rather than each byte of the buffer on each failing path.",
  ["graviola/src/mid/aes_gcm.rs", "graviola/src/mid/chacha20poly1305.rs", "graviola/src/mid/xchacha20poly1305.rs"],
  [("cipher_inout.fill(0) on the failure branch", "graviola/src/mid")],
  "path-sensitive memory-content dataflow over MIR",
  "On every abstract path to Err, the final content term of the caller's buffer is all-zero (fill, whole zeroise, or a whole-range zeroing loop) or the untouched input.")

p("C09", "Peer public keys and shared secrets are validated before use",
  "A P-256 or P-384 public key is accepted from bytes only if the encoding is exactly the uncompressed form (right length, 0x04 prefix), both coordinates are less than p, and the point satisfies the curve equation. "
  "P-256/P-384 key agreement returns a shared secret only if the computed point is on the curve (so not at infinity), and the secret is that point's whole x coordinate. "
  "X25519 accepts exactly 32 bytes, uses all of them, and returns a shared secret only if that secret is not all-zero.",
  ["inputs", "configurations"], "all byte strings offered as peer keys, all private keys, both architectures",
  "Tests try a few invalid points; a missing or partial check shows only for specially chosen (off-curve, low-order, non-canonical) inputs.",
  ["graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/x25519.rs"],
  [("PublicKey::from_x962_uncompressed, on_curve, diffie_hellman", "graviola/src/mid/p256.rs"), ("SharedSecret zero check", "graviola/src/mid/x25519.rs")],
  "path-sensitive guard dataflow over MIR, with polynomial identity testing of the dominating equation",
  "Every abstract path to Ok is dominated by the listed tests; the curve equation is decided as a polynomial identity over F_p of the decoded field operations. Trusts field primitives.")

p("C10", "ECDSA verification accepts only after every check of the standard",
  "ECDSA verification (P-256 and P-384; fixed-length and ASN.1 signatures) returns success only after: the signature has exactly the right length (or is a completely consumed, strictly encoded DER sequence of two non-negative integers), r and s are each in [1, n-1], "
  "the recomputed point is not at infinity, and all of r equals a value that depends on the public key, every part of the message, r and s.",
  ["inputs", "configurations"], "all public keys, messages, hash choices and signature byte strings",
  "Vectors contain a handful of malformed signatures per curve; a skipped check on one path is only exposed by a specially crafted signature.",
  ["graviola/src/high/ecdsa.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/high/asn1.rs"],
  [("VerifyingKey::verify, verify_asn1", "graviola/src/high/ecdsa.rs"), ("PublicKey::raw_ecdsa_verify", "graviola/src/mid/p256.rs")],
  "path-sensitive guard and provenance dataflow over MIR",
  "Every abstract path to Ok is dominated by the range, infinity and full-width equality tests. Trusts the scalar/point primitives to compute what they are named for.")

p("C11", "Ed25519 verification accepts only after every check of the standard",
  "Ed25519 verification returns success only for a 64-byte signature whose S (all 32 bytes) is less than the group order and whose R (all 32 bytes) equals the encoding of a point computed from the public key, the whole message, R and S. "
  "An Ed25519 public key is built from bytes only if there are exactly 32 of them and they decode to a curve point, and the key keeps exactly those bytes and that point.",
  ["inputs", "configurations"], "all public keys, messages and signature byte strings",
  "Malleable or truncated-comparison acceptance appears only for crafted signatures outside the vectors.",
  ["graviola/src/high/ed25519.rs", "graviola/src/mid/ed25519.rs"],
  [("VerifyingKey::verify", "graviola/src/mid/ed25519.rs")],
  "path-sensitive guard and provenance dataflow over MIR",
  "Every abstract path to Ok is dominated by the length, range and equality tests. Trusts the curve25519/SHA-512 primitives.")

p("C19", "ML-KEM-768 validates keys and rejects bad ciphertexts implicitly",
  "ML-KEM-768 decapsulation never returns a secret for a ciphertext that differs in any byte from the re-encryption of the decrypted message other than the implicit-rejection secret derived from the whole of z and the whole ciphertext; when they are equal it returns the secret derived from the message and H(ek). "
  "An encapsulation key is accepted only if every encoded coefficient is reduced (all 1152 bytes re-encode to themselves), and is kept byte for byte. Encapsulation draws a full 32 random bytes, fails if the RNG fails, and derives ciphertext and secret from them and the key.",
  ["inputs", "configurations"], "all ciphertexts, decapsulation keys, encapsulation-key bytes, RNG outcomes, both architectures",
  "Vectors flip a few bits; a comparison missing some bytes, or a rejection secret missing part of z, only shows on inputs chosen for it.",
  ["graviola/src/mid/mlkem768.rs"],
  [("DecapKey::decaps, EncapKey::try_from, EncapKey::encaps", "graviola/src/mid/mlkem768.rs")],
  "path-sensitive provenance dataflow over MIR (select terms)",
  "The returned term is a select on a whole-ciphertext equality between terms with the required provenance. Trusts NTT/SHA-3 primitives.")

p("C12", "RSA verification accepts only after every check of the scheme",
  "RSA signature verification returns success only if the signature has exactly the modulus length and is an integer below the modulus. PKCS#1 v1.5 additionally requires every byte of the recovered block to equal 00 01 FF..FF 00, the DigestInfo of the chosen hash, and the whole hash of the message. "
  "PSS additionally requires the trailer byte 0xbc, the block's top bit clear, every padding byte zero, the 0x01 separator exactly at the position for a hash-length salt, and every byte of H equal to the hash recomputed from the message hash and the recovered salt.",
  ["inputs", "configurations"], "all public keys (2048-8192 bits), messages, hash choices and signature byte strings",
  "A lax padding check (Bleichenbacher-style or partial comparison) accepts only forged blocks that no vector in the suite contains.",
  ["graviola/src/high/rsa.rs", "graviola/src/high/pkcs1.rs", "graviola/src/mid/rsa_pub.rs", "graviola/src/low/posint.rs"],
  [("VerifyingKey::verify_pkcs1_*, verify_pss_*", "graviola/src/high/rsa.rs"), ("pkcs1_1_5 / pss block checks", "graviola/src/high/pkcs1.rs")],
  "path-sensitive guard and byte-layout dataflow over MIR",
  "Every abstract path to Ok of each exported verify function is dominated by the listed tests; the PKCS#1 block layout is compared byte by byte for every modulus length from 2048 to 8192 bits. Trusts the modular exponentiation and hash primitives.")

p("C13", "RSA signatures are released only after a fault check",
  "RSA signing (PKCS#1 v1.5 and PSS) writes a signature only after checking that the encoded message is below the modulus and that the public operation applied to the computed signature gives back exactly the encoded message. On every failing path the caller's signature buffer holds nothing computed with the private key.",
  ["inputs", "fault_sequences", "configurations"], "all keys (including inconsistent imported ones), messages, RNG outcomes, and computation faults in either CRT half",
  "With a consistent key and no fault the check never fires, so tests cannot tell whether it is there.",
  ["graviola/src/high/rsa.rs", "graviola/src/mid/rsa_priv.rs"],
  [("RsaPrivateKey::private_op verifies the CRT result", "graviola/src/mid/rsa_priv.rs")],
  "path-sensitive guard dataflow over MIR",
  "Every abstract path on which a signature is written is dominated by an equality between the public operation's result on that value and the encoded message. Trusts the modular arithmetic primitives.")

p("C18", "RSA key generation returns only checked, random, distinct primes",
  "RSA key generation returns a key, for each supported size, only if: both primes come from successful random fills of exactly half the modulus width with only the top two bits and the bottom bit forced to one; each was found coprime to the product of small primes and accepted by Miller-Rabin with random bases greater than 1 and below w-1 "
  "(a base passes only if b^m = 1, b^m = w-1, or a later square = w-1); the two primes differ; and the key holds exactly those primes, their product as modulus, exponent 65537 and private values derived from both. An RNG failure at any point fails the generation.",
  ["inputs", "configurations", "fault_sequences"], "all RNG outputs and failures, all five key sizes, both architectures",
  "Tests generate a few keys with a good RNG; weakened bits, a skipped primality round or an ignored RNG error produce keys that still sign and verify.",
  ["graviola/src/high/rsa.rs", "graviola/src/mid/rsa_priv.rs"],
  [("RsaPrivateKey::generate, random_prime_one, miller_rabin", "graviola/src/mid/rsa_priv.rs")],
  "path-sensitive guard and bit-level provenance dataflow over MIR",
  "Every abstract path to Ok for each key size is dominated by the listed tests. The number of Miller-Rabin rounds and the quality of randomness are not decided. Trusts the big-integer primitives.")

p("C05", "Secret-holding values are fully zeroed when dropped",
  "Dropping any exported value that holds secrets leaves none of them in its memory: for X25519/P-256/P-384 PrivateKey, StaticPrivateKey and SharedSecret, ML-KEM-768 DecapKey and SharedSecret, RSA, ECDSA and Ed25519 signing keys, and AesGcm, ChaCha20Poly1305 and XChaCha20Poly1305, "
  "every byte of every secret field is zero after the drop (public-key parts excepted; for RSA integers, every word in use). The zeroing helpers write zero to every byte of the whole slice or value they are given, for every length.",
  ["inputs", "configurations"], "all values of the listed types, at every length of their variable parts, on both architectures",
  "tests/zeroing.rs inspects freed memory for some of the types and skips the bytes the allocator reuses; it cannot see fields it has no bounds for, other architectures, or unusual lengths.",
  ["graviola/src/low/generic/zeroise.rs", "graviola/src/low/x86_64/cpu.rs", "graviola/src/low/aarch64/cpu.rs", "graviola/src/low/posint.rs", "graviola/src/mid"],
  [("Drop implementations", "graviola/src/mid and graviola/src/low"), ("zeroise / zero_bytes", "graviola/src/low")],
  "type-directed drop-glue analysis over MIR, plus inductive analysis of the assembly zeroing loops",
  "The final memory content after each destructor is computed for each field of each listed type and must be zero; zero_bytes is decided for every length by an inductive invariant on its assembly. Copies made by moves, and stack temporaries, are not covered.")

p("C31", "The comparison and zeroing primitives cover every byte",
  "The secret-independent byte comparison used for tags and secrets (ct_equal) returns true only for slices of equal length in which every byte is equal, and the zeroing primitive writes zero to exactly the bytes it is given, for every length including those not a multiple of the block width.",
  ["inputs", "configurations"], "all slices, all lengths, both architectures",
  "Tests run a handful of lengths on one architecture; a missed tail or a skipped byte is length-specific.",
  ["graviola/src/low/generic/ct_equal.rs", "graviola/src/low/generic/zeroise.rs", "graviola/src/low/x86_64/cpu.rs", "graviola/src/low/aarch64/cpu.rs"],
  [("ct_compare_bytes, zero_bytes assembly loops", "graviola/src/low/x86_64/cpu.rs"), ("ct_equal", "graviola/src/low/generic/ct_equal.rs")],
  "inductive cut-point analysis of inline assembly, path-sensitive dataflow over MIR",
  "For every path between loop heads, pointers, length and accumulator change in step, so the whole range is covered for every length (lengths below 2^63).")

p("C15", "DER parsing is strict: one canonical encoding, no trailing data",
  "Every ASN.1 value accepted by the key and signature parsers is strict DER: each element has exactly the expected tag, a definite length in its shortest form and content wholly inside the input; INTEGERs are non-empty and minimally encoded; NULL is empty; BIT STRINGs have zero unused bits; "
  "OBJECT IDENTIFIERs are kept in full; enumerated values are accepted only if listed; and nothing follows the fields of a SEQUENCE, the value inside an explicit tag, or the outermost value. The decoded content is exactly the content octets of that element.",
  ["inputs"], "all byte strings offered to the parsers of the key formats",
  "The tests check a few malformed encodings; the space of non-canonical lengths, tags and trailing bytes at every nesting level of every structure is not enumerable by example.",
  ["graviola/src/high/asn1.rs", "graviola/src/high/asn1/pkix.rs"],
  [("Parser::take / take_len", "graviola/src/high/asn1.rs"), ("Type::from_bytes, asn1_struct!, asn1_enum!, Context", "graviola/src/high/asn1.rs")],
  "path-sensitive dataflow over MIR; guards decided over all tag and leading length octets",
  "Compositional: the element reader alone, then each type's parser over an opaque element reader, then each whole-input parser. Length octets beyond the first two are decided at boundary values. Encoding is not covered.")

p("C16", "Key import accepts only valid keys of exactly the requested kind",
  "Importing a key succeeds only if the input is wholly valid for that key type: PKCS#8 has version 1 without, or version 2 with, a public key, and exactly the algorithm and parameters of the type (named curve, absent for Ed25519, NULL for RSA); SEC1 parameters, if present, name the type's curve; "
  "EC scalars are in [1, n-1] with any excess leading bytes zero; an embedded public key (SEC1; Ed25519 PKCS#8) equals the one computed from the private key; Ed25519 seeds and public keys and X25519 private keys are exactly 32 bytes, and Ed25519 SPKI has its algorithm and no parameters; "
  "RSA keys have a non-negative odd modulus of 256 to 1024 bytes and a public exponent in [1, 2^32-1], and RSA private keys are two-prime with odd primes of equal word width, 128 to 512 bytes, and non-zero CRT exponents. The returned key is the one decoded from the checked fields.",
  ["inputs"], "all byte strings given to the from_pkcs8_der, from_sec1_der, from_pkcs1_der, from_spki_der, from_bytes and try_from_slice constructors of private keys and of RSA and Ed25519 public keys",
  "Tests import a handful of keys and a few corruptions; a missing check only shows for the mismatched or out-of-range key nobody included.",
  ["graviola/src/high/pkcs8.rs", "graviola/src/high/ecdsa.rs", "graviola/src/high/ed25519.rs", "graviola/src/high/rsa.rs", "graviola/src/mid/rsa_priv.rs", "graviola/src/mid/rsa_pub.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/util.rs"],
  [("pkcs8::Key::decode", "graviola/src/high/pkcs8.rs"), ("RsaPrivateKey::new / RsaPublicKey::new", "graviola/src/mid"), ("Scalar::from_bytes_checked", "graviola/src/mid/p256.rs")],
  "path-sensitive guard and provenance dataflow over MIR",
  "Every abstract path to Ok of each import function is dominated by the listed tests on the fields it decodes. Mutual consistency of RSA components beyond these tests (for example n = pq) is not claimed.")

p("C14", "Fresh secrets come whole from the OS generator, and its failure is never ignored",
  "Every exported operation that consumes randomness returns an error, and no secret, if any request it makes to its random source fails. Newly generated X25519, P-256, P-384, Ed25519 and ML-KEM-768 private keys are made of every byte of one successful OS random fill of the full key size (64 bytes for ML-KEM); "
  "EC private keys are those bytes unchanged, accepted only if the number is in [1, n-1] (never reduced). A fill that reports success (random::fill, the system source, the ECDSA nonce generator, the rustls SecureRandom) has written every byte of the caller's buffer with generator output.",
  ["inputs", "fault_sequences"], "every exported function that consumes randomness, every outcome of every random request, every buffer length",
  "The OS generator never fails and never yields an out-of-range scalar under test, and a partially random key passes every functional test.",
  ["graviola/src/mid/rng.rs", "graviola/src/high/hmac_drbg.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/x25519.rs", "graviola/src/mid/mlkem768.rs", "graviola/src/high/ed25519.rs", "graviola/src/mid/rsa_priv/generate.rs", "rustls-graviola/src/lib.rs"],
  [("RandomSource implementations", "graviola/src/mid/rng.rs"), ("PrivateKey::generate", "graviola/src/mid/p256.rs"), ("RsaPrivateKey::generate", "graviola/src/mid/rsa_priv/generate.rs")],
  "path-sensitive dataflow over MIR from every random source call to every success outcome",
  "RSA prime generation is covered for failure propagation only (C18 covers the tests its candidates must pass). The quality of the OS generator is assumed.")

p("C17", "Signature nonces and salts are fresh, unbiased and bound to key and message",
  "Every ECDSA signature uses as its nonce a number drawn by HMAC_DRBG (SP 800-90A: instantiate, generate blocks V = HMAC(K, V), update after every request), for every request length, seeded with the whole private key, the whole message representative and 16 bytes of a successful OS random fill; the nonce is in [1, n-1] by rejection, never by reduction; "
  "r comes from that same nonce and is not zero, s = (e + r d)/k for the hash e of every part of the message, and nothing derived from the key is written on failure. Ed25519 hashes the whole 32-byte secret prefix and the whole message for r, and R, the key's own public key and the whole message for k, with S = r + k s. "
  "Every RSA-PSS signature uses a salt of the hash's length that is entirely a successful OS random fill.",
  ["inputs", "histories", "fault_sequences"], "all keys, messages and buffers, and all outcomes of the random requests",
  "A biased, truncated or repeated nonce gives signatures that verify; no functional test can see it, and the retry paths occur with negligible probability.",
  ["graviola/src/high/ecdsa.rs", "graviola/src/high/hmac_drbg.rs", "graviola/src/high/ed25519.rs", "graviola/src/mid/ed25519.rs", "graviola/src/high/rsa.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs"],
  [("SigningKey::rfc6979_sign_with_random", "graviola/src/high/ecdsa.rs"), ("HmacDrbg", "graviola/src/high/hmac_drbg.rs"), ("SigningKey::sign", "graviola/src/mid/ed25519.rs"), ("PSS signing", "graviola/src/high/rsa.rs")],
  "path-sensitive dataflow over MIR; polynomial identity of s modulo the group order",
  "The identities are decided symbolically over the generic bignum primitives, which are trusted. HMAC itself is C20.")

p("C20", "HMAC is built correctly for every key, and tags are compared in full",
  "For SHA-256, SHA-384 and SHA-512 HMAC: a key longer than the hash block (64, 128, 128 bytes) is hashed, any other key is zero-padded to the block; the inner and outer hashes start from that block with every byte xored with 0x36 and 0x5c; update feeds all its input to the inner hash; the result is outer-hash(outer block || inner digest). "
  "verify succeeds only if the supplied tag, at its full length, equals the computed tag in the constant-time comparison; equality and truncated equality of HashOutput values compare every byte of the (truncated) value and the whole other operand. "
  "The one-shot hash functions, and the rustls hash and HMAC adapters (including fork and sign_concat over any number of parts), process every byte of their input once, in order, with the right algorithm.",
  ["inputs"], "all keys, messages, tags and part lists, for every hash",
  "Key lengths at the block boundary, tags of unexpected length, and part counts are sampled by a few vectors only.",
  ["graviola/src/high/hmac.rs", "graviola/src/high/hash.rs", "rustls-graviola/src/hmac.rs", "rustls-graviola/src/hash.rs"],
  [("Hmac::new/update/finish/verify", "graviola/src/high/hmac.rs"), ("HashOutput::ct_equal / truncated_ct_equal / eq", "graviola/src/high/hash.rs"), ("sign_concat", "rustls-graviola/src/hmac.rs")],
  "path-sensitive dataflow over MIR: provenance and order of everything fed to the hash contexts",
  "The incremental hash contexts themselves are opaque here.")

p("C25", "TLS records are sealed and opened exactly as the protocol version requires",
  "For every TLS 1.2 and 1.3 AES-GCM and ChaCha20-Poly1305 record: encryption emits [8-byte explicit nonce for TLS 1.2 AES-GCM] || the whole plaintext [|| content type for TLS 1.3] encrypted in place || the 16-byte tag, from one AEAD call under the connection's own whole key, the nonce of the connection's IV and the record's 64-bit sequence number, and the associated data of that record's version, type, sequence number and length. "
  "Decryption returns a plaintext only after one AEAD decryption over the whole record body, with the record's own nonce, associated data and tag, has succeeded, and returns exactly the decrypted bytes; records shorter than the overhead give DecryptError without any arithmetic underflow, and TLS 1.2 plaintexts over 2^14 bytes give PeerSentOversizedRecord. "
  "Key lengths, key-block shapes and extracted traffic secrets carry the same whole key and IV.",
  ["inputs", "histories"], "every record length, type, version, sequence number and key",
  "Records near the length limits, high sequence numbers and tampered lengths are not reached by the handshakes the tests run.",
  ["rustls-graviola/src/aead.rs"],
  [("MessageEncrypter/MessageDecrypter implementations", "rustls-graviola/src/aead.rs"), ("Tls12AeadAlgorithm/Tls13AeadAlgorithm implementations", "rustls-graviola/src/aead.rs")],
  "path-sensitive dataflow over MIR: what each record is assembled from, and which guards dominate returning a plaintext",
  "rustls' own Nonce::new, make_tls1x_aad, OutboundOpaqueMessage and payload buffers are trusted (opaque); the AEADs are C01/C02.")

p("C28", "Session tickets are authenticated whole, under fresh random nonces",
  "The ticketer's 32-byte key and 16-byte key name are each all of one successful OS random fill, newly made at every rotation (at most 6 hours), and a failed fill gives no ticketer. A ticket is key name || nonce || the whole encrypted plaintext || tag, with a nonce that is all of a successful 24-byte random fill made for that ticket, and the key name as associated data; a failed fill gives no ticket. "
  "A plaintext is returned only when the XChaCha20-Poly1305 decryption over the whole ticket (key name authenticated or compared, its own nonce, body and tag) has succeeded, and it is all of the plaintext; a ticket is refused only for its length, its key name or failed authentication, and every ticket issued has its length recorded as acceptable.",
  ["inputs", "histories", "fault_sequences"], "every ticket, plaintext and outcome of the random source",
  "A ticket with a wrong key name, truncated tag or repeated nonce is not produced by a handshake test.",
  ["rustls-graviola/src/ticketer.rs"],
  [("XChaCha20Ticketer", "rustls-graviola/src/ticketer.rs"), ("Ticketer::new", "rustls-graviola/src/ticketer.rs")],
  "path-sensitive dataflow over MIR from the random source to the ticket, and from the AEAD verdict to the plaintext",
  "rustls' TicketRotator is trusted to call the generator at every rotation.")

p("C26", "TLS cipher suites, signature schemes and keys are wired to the right algorithms",
  "Every cipher suite the rustls provider offers is built from the hash, HMAC-based key schedule, AEAD with its key size, ECDHE and signature schemes its name says; AES-GCM suites limit a key to at most 2^24.5 records. "
  "Every signature verification algorithm checks with exactly the key type, hash and padding of the AlgorithmIdentifiers it declares; each TLS signature scheme maps to algorithms of its own hash and padding, its own curve first; a signature is accepted only if the whole public key parses and the whole signature over the whole message verifies under it, and refused otherwise only when one of the two fails. "
  "A signer is returned only for a scheme the peer offered, reports that scheme, and signs the whole message with that scheme's algorithm under the loaded key, returning the whole signature; no signer is returned only if no supported scheme was offered. "
  "A loaded key is the successful import of the whole document given in the format given, refused only if every import of that format fails; the published public key is its whole SubjectPublicKeyInfo.",
  ["configurations", "inputs"], "every suite, scheme, algorithm and key format in the provider's tables, and every key, message and offered list",
  "Handshake tests exercise a few suites and schemes; a swapped entry in a table (a hash, an identifier, an order) stays invisible while both ends share it.",
  ["rustls-graviola/src/suites.rs", "rustls-graviola/src/verify.rs", "rustls-graviola/src/sign.rs", "rustls-graviola/src/lib.rs"],
  [("ALL_CIPHER_SUITES", "rustls-graviola/src/suites.rs"), ("ALGORITHMS", "rustls-graviola/src/verify.rs"), ("SigningKey / Signer implementations", "rustls-graviola/src/sign.rs"), ("default_provider", "rustls-graviola/src/lib.rs")],
  "symbolic evaluation of the provider's static tables from MIR, and path-sensitive dataflow over each table entry's methods",
  "graviola's own signing, verifying and import functions are opaque here (C09, C12, C16, C17); rustls' types are trusted.")

p("C27", "TLS key exchanges use a fresh key, the whole peer share and the right group",
  "Every key exchange group offered is the algorithm its name says, in the group, the started exchange and the completed one. Starting an exchange generates one new private key, succeeding only if generation does, and publishes exactly the public key of that private key. "
  "Completing gives all of the agreement between that same private key and the whole peer share, only after parsing and agreement both succeed; otherwise, and only otherwise, InvalidKeyShare. "
  "The X25519MLKEM768 hybrid accepts a client share of exactly 1184+32 bytes and a server share of exactly 1088+32 bytes, gives each component exactly its own part, and concatenates public keys and secrets ML-KEM first; a component's failure is the failure of the whole; its separately offered component is the classical one, completed with the whole peer share. ML-KEM groups are usable for TLS 1.3 only.",
  ["inputs", "histories", "fault_sequences"], "every peer share (any length and content) and every outcome of key generation, parsing and agreement",
  "Malformed peer shares, component failures and mismatched keys are not produced by the handshakes tests run.",
  ["rustls-graviola/src/kx.rs", "rustls-graviola/src/kx/hybrid.rs", "rustls-graviola/src/kx/mlkem.rs"],
  [("SupportedKxGroup / ActiveKeyExchange implementations", "rustls-graviola/src/kx.rs"), ("Hybrid, Layout", "rustls-graviola/src/kx/hybrid.rs"), ("MlKem768", "rustls-graviola/src/kx/mlkem.rs")],
  "path-sensitive dataflow over MIR, following the private key of each start() outcome into complete()",
  "graviola's key agreement functions are opaque here (C10, C14); rustls' default start_and_complete is trusted.")

p("C06", "Formatting and error reporting never reveal secret values",
  "Debug, Display and the other formatting traits, on every graviola and rustls-graviola type that contains a private key, shared secret, symmetric or MAC key (or a type holding one, at any depth), print no part of that secret: their output does not depend on a secret field. "
  "Panic, assertion and error messages built by library code never include key material, scalars, big integers or byte buffers, error values carry no data of the inputs, and no secret-holding type has a derived (early-exit) equality, ordering or hash.",
  ["inputs", "programs"], "every formatting implementation and every message-producing call site reachable in both crates, on both architectures, for all values",
  "Tests format a few values at most, and never look for secrets in panic or error messages.",
  ["graviola/src/mid/mlkem768.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "rustls-graviola/src/sign.rs", "rustls-graviola/src/ticketer.rs", "graviola/src/error.rs"],
  [("Debug impls of PrivateKey, SharedSecret", "graviola/src/mid/p256.rs"), ("Debug impls of the TLS signers and the ticketer", "rustls-graviola/src/sign.rs"), ("Error", "graviola/src/error.rs")],
  "type-containment closure over secret-holding types; path-sensitive dataflow from self's secret fields into formatter calls; enumeration of message sinks by argument type",
  "A value of an integer type the rules allow in messages (lengths, usize) is trusted not to be secret.")

p("C21", "An ephemeral private key is used for at most one key agreement",
  "The ephemeral key agreement keys key_agreement::{x25519,p256,p384}::PrivateKey can only be created from system randomness with no input from the caller, cannot be copied, cloned, converted to or from another type, or read out, and every exported function that yields a shared secret from one consumes it and does not give it back; borrowing one yields only its public key. "
  "TLS key exchanges hold their ephemeral key (also ML-KEM's) by value in a type that cannot be duplicated, and are completed by value, so each started exchange completes at most once.",
  ["programs", "histories"], "every program that can be written against the exported API (both architectures' exports)",
  "No test can show the absence of an API; only programs that compile are ever tested.",
  ["graviola/src/mid/x25519.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "rustls-graviola/src/kx.rs", "rustls-graviola/src/kx/mlkem.rs"],
  [("PrivateKey::diffie_hellman(self)", "graviola/src/mid/x25519.rs"), ("PrivateKey::diffie_hellman(self)", "graviola/src/mid/p256.rs"), ("ActiveX25519, ActiveP256, ActiveP384, mlkem::Active", "rustls-graviola/src/kx.rs")],
  "ownership analysis over the type-checked program: signatures, trait implementations, field visibility and instantiations of duplicating primitives at the ephemeral key types",
  "Safe Rust's move semantics are trusted; a user's own unsafe code is out of scope.")

p("C22", "Unsafe code is confined to the low layer and mid/high are platform-agnostic",
  "Outside graviola's `low` module (so in `mid`, `high`, the crate root and all of rustls-graviola) there is no unsafe function, unsafe call, raw pointer dereference, inline assembly, mutable static access, nor manual Send or Sync. `low` depends on nothing in `mid` or `high`, and `mid` on nothing in `high`. "
  "The functions of `mid` and `high` are the same on x86_64 and aarch64 (same functions, signatures and calls up to the platform's own `low` primitives), and both platforms export the same API.",
  ["programs", "configurations"], "every function of both crates on both architectures",
  "A memory-safety or layering slip passes all tests that do not happen to trip it, and tests run on one architecture only.",
  ["graviola/src/lib.rs", "graviola/src/mid/mod.rs", "graviola/src/high/mod.rs", "graviola/src/low/mod.rs", "rustls-graviola/src/lib.rs"],
  [("module layers", "graviola/src/lib.rs"), ("deny(unsafe_code)", "graviola/src/mid/mod.rs"), ("deny(unsafe_code)", "graviola/src/high/mod.rs")],
  "effect query over MIR (unsafe operations per function) and reference query across layers; structural comparison of the two architectures' MIR call sets",
  "core's formatting internals (fmt::Arguments::new) and compiler-generated Box dereferences are excluded; the soundness of `low` itself is C08's.")

p("C23", "No shared mutable state or ambient effects; randomness only where promised",
  "No static is mutable, thread-local or interior-mutable, and no type in either crate contains a cell, atomic, lock or raw pointer (except the ticketer's size hint), so operations on different threads cannot affect each other and values can be shared freely. "
  "Nothing the API reaches uses the environment, files, network, processes, threads, clocks, standard streams or hardware randomness instructions. The operating system's random source is drawn from in exactly one function, and only key generation, encapsulation, ECDSA and PSS signing and random::fill can reach it: every other exported operation is a function of its arguments alone.",
  ["schedules", "histories", "inputs"], "every call path from the exported API of both crates on both architectures, under any thread interleaving",
  "Tests are single-threaded and cannot show that state or effects are absent on every path.",
  ["graviola/src/mid/rng.rs", "graviola/src/lib.rs", "rustls-graviola/src/ticketer.rs"],
  [("SystemRandom::fill", "graviola/src/mid/rng.rs"), ("random::fill", "graviola/src/lib.rs"), ("XChaCha20Ticketer", "rustls-graviola/src/ticketer.rs")],
  "effect and escape analysis: statics, field types and call-graph reachability (trait calls resolved to all implementations) over MIR",
  "External crates other than getrandom (core, alloc, rustls, std's CPU feature detection) are trusted to have no effects of their own.")

p("C03", "No CPU feature is used without having been verified first",
  "Every exported function that runs code needing more than the architecture's baseline first verifies that the CPU has every feature graviola requires unconditionally, and panics otherwise, before any such code runs (on x86_64: aes, pclmulqdq, avx, avx2, bmi1, bmi2, adx and what they imply; on aarch64: neon, aes, pmull, sha2). "
  "Every instruction in inline assembly, intrinsic and feature-gated function that needs any other feature (SHA, SHA3, AVX512, VAES, DIT, ...) runs only when run-time detection of that feature succeeded: on the path itself, or earlier, proven by a token value that can only be made after detecting it; otherwise a fallback runs.",
  ["configurations", "inputs"], "every CPU feature combination, every inline assembly block, intrinsic and feature-gated call on both architectures, every exported function",
  "Tests run on CPUs that have the features; a missing or wrong gate only shows as an illegal instruction on other CPUs.",
  ["graviola/src/low/x86_64/cpu.rs", "graviola/src/low/aarch64/cpu.rs", "graviola/src/low/entry.rs", "graviola/src/low/x86_64/aes_gcm.rs", "graviola/src/low/x86_64/ghash.rs", "graviola/src/low/aarch64/sha3_keccak_f1600_mux.rs"],
  [("verify_cpu_features", "graviola/src/low/x86_64/cpu.rs"), ("HaveAvx512ForAesGcm, HaveSha256, HaveBmi2", "graviola/src/low/x86_64/cpu.rs"), ("HaveSha3", "graviola/src/low/aarch64/cpu.rs"), ("Entry", "graviola/src/low/entry.rs")],
  "path-sensitive dataflow of detection results into required set and tokens; instruction-to-feature classification of inline assembly; typestate (live entry guard) over MIR control flow",
  "std's detection macros and rustc's feature implications are trusted; popcnt is taken as implied by sse4.2. Drop, Clone and formatting implementations and the hidden *_internal functions are not entry points.")

p("C04", "Secret operations leave no data in vector registers and run with DIT on",
  "Every exported function whose arguments or result contain a secret (private, shared, symmetric, HMAC or ML-KEM secret values, at any depth) does all its computing while a secret entry guard is alive, or inside functions that do. "
  "Dropping the guard, on every path out including errors, clears every vector register: all 16 ymm registers, and zmm16-31 unless the CPU lacks the features whose code uses them; v0-31 on aarch64. On aarch64 with DIT, DIT is on while the guard is alive and is restored to its previous state after.",
  ["inputs", "configurations", "fault_sequences"], "every exported function taking or returning secrets, every path through it, both architectures",
  "Register contents after return and the DIT bit are not observable in tests of results.",
  ["graviola/src/low/entry.rs", "graviola/src/low/x86_64/cpu.rs", "graviola/src/low/aarch64/cpu.rs", "graviola/src/high/hmac.rs", "graviola/src/mid/aes_gcm.rs", "graviola/src/mid/x25519.rs"],
  [("Entry::new_secret, Drop for Entry", "graviola/src/low/entry.rs"), ("leave_cpu_state", "graviola/src/low/x86_64/cpu.rs"), ("enter_cpu_state, leave_cpu_state", "graviola/src/low/aarch64/cpu.rs")],
  "typestate (live secret guard) over MIR control flow with interprocedural summaries; register-effect analysis of the scrubbing assembly on every path of the guard's construction and drop",
  "Trivial accessors that compute nothing need no guard. What rustc spills to the stack or leaves in general-purpose registers is out of scope. Hidden *_internal hooks and Clone are not entry points.")

p("C08", "Inline assembly keeps its contract with the compiler and stays inside its data",
  "On every path through every inline assembly block, every register the block changes is one it declares (as output or clobber) and input-only operands keep their values, every output the program uses has been written, and the stack pointer is restored. "
  "Every memory access is through a pointer operand, the block's own stack frame or a named constant table; at constant offsets it stays inside the array, frame or table, and stores go only through pointers made from mutable references. Declared options (nomem, readonly, nostack, preserves_flags) agree with the instructions. So no operation's result depends on where the compiler keeps live values around the assembly, under any optimisation or inlining.",
  ["programs", "inputs", "configurations"], "every inline assembly block of graviola on both architectures, every path through it, any surrounding code and optimisation level",
  "A missing clobber or an overlong store only shows when the compiler happens to keep something live there, which changes with inlining, optimisation level and rustc version; tests run one build on one architecture.",
  ["graviola/src/low/x86_64/mod.rs", "graviola/src/low/aarch64/mod.rs", "graviola/src/low/x86_64/bignum_inv_p256.rs", "graviola/src/low/x86_64/curve25519_x25519.rs", "graviola/src/low/aarch64/p256_montjadd.rs", "graviola/src/low/x86_64/cpu.rs"],
  [("asm! operands, clobbers and options", "graviola/src/low/x86_64"), ("asm! operands, clobbers and options", "graviola/src/low/aarch64")],
  "abstract interpretation of the inline assembly in MIR (register values, stack frame, pointer provenance and offsets, over the block's control flow including local subroutines), checked against the operands' MIR types, provenance and declared options",
  "Accesses at computed offsets and of slices are only shown to be through the right object with the right mutability, not in bounds (counted in the evidence). Alignment of vector accesses is not checked. What each block computes is out of scope.")

p("C07", "Secrets never decide a branch, an address or a variable-time operation",
  "No data-dependent branch, loop bound, memory index or address, division, or variable-time comparison anywhere in the code an exported function reaches depends on a secret: private and shared keys, symmetric and HMAC keys, plaintext, hashed input, seeds, and everything drawn from the random source or computed from these. This holds in Rust code and inside every assembly block, on both architectures. "
  "Public are: lengths; what an operation publishes (signatures, public keys, ciphertexts, ML-KEM's matrix seed, the PSS salt); whether a tag or signature was accepted; whether a key or random candidate was rejected; and checks only a hardware fault could fail. RSA key generation and RSA private-key DER import and export are excluded.",
  ["inputs", "programs"], "every exported function that takes, draws or returns secrets, every path and assembly block it reaches, both architectures, all secret values",
  "Timing and access patterns are not part of any result, so tests pass whatever they are; measuring samples a few secrets on one CPU.",
  ["graviola/src/low/generic/ct_equal.rs", "graviola/src/mid/p256.rs", "graviola/src/mid/p384.rs", "graviola/src/mid/rsa_priv.rs", "graviola/src/mid/mlkem768.rs", "graviola/src/low/posint.rs", "graviola/src/mid/x25519.rs", "graviola/src/low/x86_64/curve25519_x25519.rs", "graviola/src/low/ct.rs"],
  [("ct_equal", "graviola/src/low/generic/ct_equal.rs"), ("table selection", "graviola/src/mid/p256.rs"), ("decaps implicit rejection", "graviola/src/mid/mlkem768.rs"), ("into_public, public_slice", "graviola/src/low/ct.rs")],
  "interprocedural, field-, object- and value-sensitive information flow (taint) over MIR and over the abstract interpretation of every assembly block",
  "Decided on MIR: that LLVM does not turn a selection into a branch, and what the microarchitecture does, are out of scope. The into_public/public_slice annotations in low::ct are trusted as declassification. RSA key generation (primality testing) and DER's minimal-length private integers are variable-time by nature.")

p("C24", "Constant tables have exactly their mathematically defined values",
  "Every precomputed table and multi-word mathematical constant held in a static or const item, on both architectures, equals its definition in every entry: the multiples of the P-256, P-384 and edwards25519 base points, the curves' coefficients, orders and Montgomery constants, ML-KEM's NTT, base multiplication and rejection sampling tables, SHA-2's and Keccak's round constants, AES round constants, byte shuffles, PKCS#1 DigestInfo prefixes and the small primes product.",
  ["inputs", "configurations"], "every entry of every recognised table in graviola on both architectures",
  "A wrong entry only matters for the inputs that select it (one base point entry in hundreds, one rejection mask in a hundred thousand); tests do not select them all, and not on the other architecture.",
  ["graviola/src/mid/p256/precomp.rs", "graviola/src/mid/p384/precomp.rs", "graviola/src/low/x86_64/curve25519_x25519base.rs", "graviola/src/low/x86_64/edwards25519_scalarmulbase.rs", "graviola/src/low/aarch64/mlkem.rs", "graviola/src/low/x86_64/mlkem.rs", "graviola/src/mid/sha3.rs", "graviola/src/mid/rsa_priv/generate.rs"],
  [("CURVE_GENERATOR_PRECOMP_W7", "graviola/src/mid/p256/precomp.rs"), ("MLKEM_REJ_UNIFORM_TABLE, Q_DATA", "graviola/src/low/x86_64/mlkem.rs"), ("NTT_ZETAS_*", "graviola/src/low/aarch64/mlkem.rs"), ("Lcurve25519_x25519base_edwards25519_gtable", "graviola/src/low/x86_64/curve25519_x25519base.rs")],
  "compile-time constants as evaluated by rustc, recognised by content and compared in full with the values the analyser computes from the definitions (group laws, roots, LFSRs, powers)",
  "Tables are recognised by content (at least half equal to a definition of the same size), so renaming or moving one is not an alarm. GHASH reduction constants, all-zero constants and immediates inside assembly are not covered.")

p("C30", "Incremental hashing absorbs exactly the message, however it is split",
  "For SHA-256, SHA-384, SHA-512, SHA3-256 and SHA3-512, on both architectures: whatever the lengths of the pieces given to update, the blocks fed to the compression function or permutation are the concatenated message in order, each byte once, followed by exactly the padding and length field the standard prescribes for the whole message; a new context holds the standard's initial state, and finish returns the state's leading words in the standard's byte order.",
  ["inputs", "histories"], "every fill level of the buffer, every input length class and any number of blocks already processed; hence every sequence of updates",
  "A digest depends on every split of the message into updates; tests feed messages whole or byte by byte, so a slip in one combination of buffered and new bytes, or past a length no test reaches, is never seen.",
  ["graviola/src/mid/sha2.rs", "graviola/src/mid/sha3.rs", "graviola/src/low/generic/blockwise.rs"],
  [("update, finish", "graviola/src/mid/sha2.rs"), ("Sponge::absorb, absorb_final", "graviola/src/mid/sha3.rs"), ("Blockwise", "graviola/src/low/generic/blockwise.rs")],
  "data refinement: path outcomes of new/update/finish are extracted from MIR as terms over the context and the input; a representation relation for the counters is inferred, and each path's terms are compared with the specification (buffered ++ input = absorbed ++ left over; padding) for every fill level and length class",
  "The relation makes one update or finish step stand for every history. Lengths are classed by residues near every fill level and around every constant in the code, not proved for all integers symbolically. Compression functions are opaque (C24 covers their tables). Paths whose terms cannot be evaluated are counted in the evidence, not reported.")

# ---- not addressed by static analysis here
def na(id, title, statement, over, text, why, files, reason):
    p(id, title, statement, over, text, why, files, [(title, files[0])], na=reason)

na("C33", "Every arithmetic and cipher kernel computes the right value",
  "For every input, each field, curve, bignum, AES, ChaCha20, GHASH, Poly1305, SHA-2, Keccak and ML-KEM kernel in low, on every CPU path, returns the mathematically defined result.",
  ["inputs", "configurations"], "all operands of all kernels", "Carry chains go wrong on operands of density 2^-64; no test set contains them.",
  ["graviola/src/low/x86_64/mod.rs", "graviola/src/low/aarch64/mod.rs", "graviola/src/low/generic/poly1305.rs"],
  "functional correctness of multi-word arithmetic quantifies over run-time values: it takes proof (as done for s2n-bignum in HOL Light) or a solver, not static analysis. Statically decided parts: register/memory discipline of the assembly (C08), constant tables (C24), hash buffering and padding (C30), AEAD length and tag coverage (C01).")
na("C34", "Valid round trips always succeed",
  "Every signature made verifies under the matching public key; every sealed message opens; both sides of every key agreement and of ML-KEM get the same secret (up to its stated failure probability); every exported key imports back to an equal key.",
  ["inputs", "histories"], "all keys, messages, nonces and random values", "Tests sample a few keys and messages.",
  ["graviola/src/high/ecdsa.rs", "graviola/src/mid/rsa_priv.rs", "graviola/src/mid/mlkem768.rs", "graviola/src/mid/aes_gcm.rs"],
  "it composes two numerical computations whose agreement is an algebraic fact about run-time values (see C33); static analysis decides the wiring of each direction (C10-C13, C17, C19, C25, C27), not that the values meet.")
na("C35", "All CPU feature variants and architectures give identical results",
  "Whatever features the CPU has (AVX512/VAES or not, SHA extensions or not, aarch64 SHA3) every operation returns the same bytes.",
  ["configurations", "inputs"], "all feature combinations x all inputs", "Tests run on one CPU.",
  ["graviola/src/low/x86_64/aes_gcm.rs", "graviola/src/low/x86_64/sha256.rs", "graviola/src/low/aarch64/mod.rs"],
  "equivalence of differently structured vector kernels is functional equivalence over run-time values (see C33). Decided statically: variant selection is sound (C03), and mid/high call the same things on both architectures (C22).")
na("C36", "Execution time and power do not reveal secrets on real hardware",
  "No observable of running the compiled library (time, cache state, power, speculation) depends on secrets.",
  ["inputs", "configurations"], "all secrets, compilers and CPUs", "Needs a model or measurement of hardware.",
  ["graviola/src/low/ct.rs", "graviola/src/mid/p256.rs"],
  "what LLVM and the microarchitecture do is not in the source; C07 decides the source-level and assembly-level part (no secret-dependent branch, address or variable-time instruction), C04 the DIT part.")
na("C37", "Random output is unpredictable and RSA primes are prime",
  "Bytes from the OS generator and HMAC_DRBG are indistinguishable from random, and the numbers accepted as RSA primes are prime but for the stated error.",
  ["inputs"], "all generator states", "A statistical property of distributions.",
  ["graviola/src/mid/rng.rs", "graviola/src/mid/rsa_priv/generate.rs"],
  "probabilistic statements about the operating system's entropy and about number theory; the flow of generator output into keys, nonces and bases is decided by C14, C17, C18, C28.")
na("C38", "No input makes a public function panic or loop forever",
  "Every exported function returns, without panicking, for every input its documentation allows, in bounded time.",
  ["inputs"], "all inputs", "Panics hide on lengths and values nobody samples.",
  ["graviola/src/high/asn1.rs", "graviola/src/low/posint.rs", "graviola/src/mid/rsa_pub.rs"],
  "hundreds of bounds checks in fixed-capacity bignum code hold by numeric relations between run-time widths (PosInt lengths, quotient widths, CRT sizes), and rejection loops (ECDSA nonces, RSA primes) end only with probability one; no abstraction in reach bounds these without false alarms. C30 does report a hash update or finish that does not return.")
