#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the entries stay readable and schema-shaped).
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="hybrid-dilithium-sphincs/hybrid.c"
p("C01","Full-mode open/verify accept exactly when all three components verify",
 "Opening a full-mode hybrid signature succeeds if and only if its id byte is the full-mode id, its length byte is 1..64 and matches the supplied length exactly, and the Ed25519, Dilithium and SPHINCS+ component verifiers each accept their own slice of the signature over the embedded message under their own slice of the public key. On success the returned message and length are the embedded ones; verifying against a caller-supplied message succeeds if and only if opening succeeds and yields that very message (same length, every byte). No single component, alone or in any pair, suffices.",
 ["inputs"],"every signature length 0..2^64-1, every signature, public key and message byte string, every combination of component verdicts",
 "The only test that tampers with full-mode signatures is not part of the stable suite, and sampling a few flipped bytes cannot show that every one of the 49k signature bytes, 1408 key bytes and each component verdict is significant.",
 [H,"common/hybrid-common.c"],[("full-mode open","hybrid.c: open"),("full-mode verify","hybrid.c: verify")],observe=["return code, message buffer and length of the open call","return code of the verify call"])
p("C02","Compact-mode open/verify accept exactly when both components verify the hash",
 "Opening a compact hybrid signature succeeds if and only if its id byte is the compact id, its length byte is 1..64 and matches the supplied length exactly, and the Ed25519 and Dilithium component verifiers both accept their slices over SHA3-512(nonce || message || SPHINCS+ public key) under their own slices of the public key. On success the returned message and length are those carried in the signature; verifying against a caller-supplied message succeeds if and only if opening succeeds and yields that very message. The nonce, the message and the SPHINCS+ public key are all bound: the digest checked by both components covers every byte of each.",
 ["inputs"],"every signature length, signature, public key and message byte string, every combination of component verdicts",
 "Tests flip a handful of bytes for a handful of keys; the binding must hold for each byte of nonce, message and SPHINCS+ key, every message length 1..64 and each verdict combination.",
 [H,"common/hybrid-common.c"],[("compact open","hybrid.c: compact open"),("compact verify","hybrid.c: compact verify")])
p("C03","Hybrid signing yields exactly the documented layout, all components over one message",
 "For every message of 1..64 bytes and every secret key, a successful full-mode signing call outputs id 2, the length byte, the Ed25519 signature, the message, the Dilithium signature and the SPHINCS+ signature, each component signature made with its own slice of the secret key over the whole message; a successful compact call outputs id 1, the length byte, the Ed25519 and Dilithium signatures over SHA3-512(fresh 40-byte nonce || message || SPHINCS+ public key stored in the secret key), the nonce and the message. The reported length is the documented one, nothing beyond it is written, and anything but success leaves no success code. Signing a message of 0 or more than 64 bytes, or with a missing pointer, is refused without writing any output.",
 ["inputs"],"all secret keys, all messages of every length 0..2^64-1, all component outcomes",
 "Tests sign a few messages per length with random keys and compare only lengths and round trips; they cannot see that both modes use the right key slices and digest for every input.",
 [H,"common/hybrid-common.c"],[("full sign","hybrid.c"),("compact sign","hybrid.c")])
p("C04","What hybrid signing produces, hybrid opening and verification accept",
 "For every key pair produced by key generation and every message of 1..64 bytes, a signature returned with a success code by either signing mode is opened and verified successfully in the same mode under the matching public key and returns the original message, provided each component scheme accepts its own honest signatures. A signature of one mode is never accepted by the other mode.",
 ["inputs"],"all seeds, all nonces and per-signature randomness, all messages of 1..64 bytes, both modes",
 "Round trips are sampled for a few random keys and messages; the claim ranges over all seeds, nonces and lengths and across modes.",
 [H],[("sign/open layout agreement","hybrid.c"),("key layout","hybrid.c: keypair from seed")])
p("C05","Untrusted input to open/verify/sign is memory-safe and leaves outputs alone",
 "For any byte string and length handed to the hybrid open, verify, sign and key-generation calls (including lengths far outside the legal range and null pointers), no byte outside the caller's buffers is read or written, the input buffers are never modified, and a call that does not report success leaves the caller's message buffer and message length exactly as they were. Opening never writes more than the embedded message (at most 64 bytes) and its length.",
 ["inputs"],"all pointers null or not, all 64-bit lengths, all buffer contents, buffers of exactly the declared size",
 "Tests pass well-sized buffers and a few wrong lengths; out-of-bounds access or a partial output write shows only for specific length/content combinations and is invisible to a passing assertion.",
 [H],[("argument checks","hybrid.c"),("copy out only after all verifications","hybrid.c")])
p("C06","Key generation from a seed is deterministic and lays out all component keys",
 "Key generation from a 160-byte seed gives the first 32 bytes to Ed25519, the next 32 to Dilithium and the last 96 to SPHINCS+, and outputs public key = Ed25519 pk || Dilithium pk || SPHINCS+ pk (1408 bytes) and secret key = Ed25519 sk || Dilithium sk || Dilithium pk || SPHINCS+ sk (4064 bytes), writing every byte and nothing else. The result is a function of the seed alone; generating without a seed is the same function of 160 fresh random bytes. A failure of any component is reported.",
 ["inputs"],"all 160-byte seeds, all component outcomes",
 "Known-answer tests pin one or two seeds; slices swapped or bytes ignored in a way that one seed does not expose stay invisible.",
 [H],[("keypair from seed","hybrid.c"),("keypair","hybrid.c")])
p("C07","Seed expansion keeps the Dilithium seed and expands the rest with SHAKE",
 "Expanding a 96-byte seed copies input bytes 64..95 unchanged to output bytes 32..63 and fills output bytes 0..31 and 64..159 with the 128-byte SHAKE-based expansion of the first 64 input bytes; the output depends on every one of the 96 input bytes, is a function of them alone and writes exactly 160 bytes. The underlying expander refuses null pointers, seeds shorter than 32 bytes and output lengths not larger than the seed, and otherwise fills every requested byte with the SHAKE-256 stream of the seed followed by the domain byte.",
 ["inputs"],"all 96-byte seeds; all seed and output lengths of the expander",
 "Two known answers pin two seeds; dependence on every seed byte and the remainder handling for every output length are not sampled.",
 [H,"common/shake_prng.c"],[("seed expander","hybrid.c"),("SHAKE seed expander","shake_prng.c")])
p("C08","Failure of the random source is never turned into a key or signature",
 "Whenever the random source reports failure, every key-generation or signing operation that draws from it (hybrid, Dilithium, SPHINCS+) reports failure itself and does not report success with material derived from bytes that were never filled. Operations that report success have used exactly the requested number of random bytes, all of them fresh.",
 ["fault_sequences","inputs"],"every pattern of success/failure of the random source, every key and message",
 "The test suite never makes the random source fail.",
 [H,"dilithium2/sign.c","sphincs/sign.c"],[("return code checks after drawing randomness","sign.c / hybrid.c")])
p("C09","The random source fills the whole buffer or reports an error",
 "A request for n random bytes returns success only after all n bytes of the buffer have been written by the operating system source, whatever sequence of short reads and interrupted calls occurs; a hard error of the source is reported as failure. It never writes outside the n bytes, never asks the kernel for more than remains, and retries an interrupted call.",
 ["fault_sequences","inputs"],"every n, every sequence of kernel results (short reads of any size, EINTR, errors)",
 "The kernel practically never returns short reads or errors for small requests, so tests see only the one-shot success path.",
 ["random/randombytes.c"],[("getrandom loop","randombytes.c")])
p("C10","SHA3 and SHAKE equal FIPS 202 for every input, however it is split",
 "SHA3-256/384/512 and SHAKE-128/256 outputs equal the FIPS 202 definitions for every message and every output length, and the incremental interface yields the same bytes however the message is split across absorb calls and the output across squeeze calls. No byte outside the declared buffers is touched and contexts are released exactly once.",
 ["inputs","histories"],"all messages of every length, all output lengths, all sequences of absorb and squeeze calls",
 "Known answers cover a handful of lengths; rate-boundary and split-dependent errors need specific lengths or call sequences.",
 ["common/fips202.c"],[("Keccak permutation","fips202.c"),("absorb/squeeze one-shot and incremental","fips202.c")])
p("C11","Dilithium modular arithmetic and rounding meet their specifications",
 "For all inputs in their documented ranges, Montgomery and Barrett-style reduction return values congruent modulo q inside the documented bounds; power-of-two rounding and decomposition split a coefficient exactly with remainders in the documented ranges; a hint computed for (low, high) parts recovers the right high bits; norm checks reject exactly the coefficients at or above the bound. No signed overflow occurs for values in range.",
 ["inputs"],"all 32/64-bit inputs in range",
 "Only whole-scheme round trips are tested; an off-by-one at a range edge is hit with negligible probability.",
 ["dilithium2/reduce.c","dilithium2/rounding.c","dilithium2/poly.c"],[("reduce","reduce.c"),("rounding","rounding.c")])
p("C12","Dilithium encodings are inverse, canonical and reject malformed signatures",
 "Packing followed by unpacking of public keys, secret keys and signatures returns the original coefficients for all coefficients in range, and unpacking then repacking any accepted signature returns the same bytes (each signature has exactly one accepted encoding). Unpacking rejects hint encodings with out-of-order or repeated positions, counts that decrease or exceed the maximum, and non-zero padding, and never accesses memory out of bounds on any input.",
 ["inputs"],"all byte strings of signature/key size, all coefficient vectors in range",
 "Tests never feed crafted hint sections; malleability and out-of-range indices only show on adversarial encodings.",
 ["dilithium2/packing.c","dilithium2/poly.c"],[("pack/unpack","packing.c, poly.c")])
p("C13","Dilithium polynomial multiplication through the NTT is exact",
 "Forward transform, pointwise multiplication and inverse transform together compute the product in Z_q[X]/(X^256+1) for all inputs in the documented coefficient range, and no intermediate value overflows. Both transforms equal their mathematical definitions (evaluation at the fixed roots of unity, with the documented Montgomery factor).",
 ["inputs"],"all coefficient vectors in the documented range",
 "Round trips with random keys exercise typical magnitudes only; overflow at extreme coefficients and errors cancelling between sign and verify stay hidden.",
 ["dilithium2/ntt.c","dilithium2/poly.c"],[("ntt, invntt_tomont","ntt.c"),("pointwise_montgomery","poly.c")])
p("C14","Dilithium sampling is exact, in range and never biased by buffer edges",
 "The uniform, short-vector, mask and challenge samplers consume the SHAKE stream exactly as the Dilithium specification defines (each candidate accepted or rejected on its own value, in order, across block boundaries), always produce full polynomials with every coefficient in range, and challenges have exactly 39 coefficients equal to plus or minus one. Seeds and nonces are bound into the stream completely.",
 ["inputs"],"all seeds, all nonces, all SHAKE output streams",
 "Rejection happens rarely and refill of the buffer almost never; tests see only the common path.",
 ["dilithium2/poly.c","dilithium2/symmetric-shake.c"],[("rej_uniform, rej_eta, challenge","poly.c")])
p("C15","Dilithium verification enforces every acceptance condition",
 "Dilithium verification accepts exactly when the signature has the exact length, decodes canonically, its response vector is below the norm bound, and the challenge recomputed from the message, public key, response and hints equals the whole challenge carried in the signature. Signing only ever releases signatures whose response, low bits, hint product and hint count passed all four rejection tests, and reports the exact signature length.",
 ["inputs"],"all signatures, messages and keys",
 "Tests flip one byte of honest signatures; skipping a norm bound or comparing a prefix of the challenge is not exposed by them.",
 ["dilithium2/sign.c","dilithium2/polyvec.c"],[("verify","sign.c"),("rejection loop","sign.c")])
p("C16","SPHINCS+ verification recomputes the hypertree root that key generation published",
 "For every key pair, message and per-signature randomness, the SPHINCS+ verifier applied to an honest signature recomputes exactly the root placed in the public key, so it accepts; for any other input it accepts exactly when the root recomputed from the signature by the specified FORS, WOTS+ and Merkle hashing equals all 32 bytes of the public root and the signature has the exact length. Every hash call is separated by the specified address (layer, tree, key pair, chain, position, type).",
 ["inputs"],"all keys, messages, randomness and signatures",
 "One signature costs seconds and tests make a few; errors confined to particular leaf indices, layers or digits are sampled away.",
 ["sphincs/sign.c","sphincs/fors.c","sphincs/merkle.c","sphincs/wots.c","sphincs/wotsx1.c","sphincs/utilsx1.c","sphincs/utils.c","sphincs/address.c","sphincs/hash_shake.c","sphincs/thash_shake_simple.c"],[("hypertree signing and verification","sphincs/*.c")])
p("C17","Combined sign/open interfaces bind signature and message and fail closed",
 "The signature-prepended interfaces of Dilithium and SPHINCS+ emit signature followed by the unmodified message with the total length, accept an input exactly when the detached verifier accepts its first part over the rest, and return that message and its length; inputs shorter than a signature are refused without being read. On rejection the message buffer is not written.",
 ["inputs"],"all messages and lengths, all signed-message strings",
 "These interfaces are not exercised with malformed or short inputs by the stable tests.",
 ["dilithium2/sign.c","sphincs/sign.c"],[("crypto_sign/crypto_sign_open","sign.c")])
p("C18","Ed25519 signing and verification follow RFC 8032 for every input",
 "Ed25519 keys are clamped SHA-512 expansions of the seed with the public key appended; signatures are (R, S) with R and S computed from the specified hashes of prefix, R, public key and message; opening accepts exactly when the public key decodes to a curve point and the recomputed [S]B - [h]A encodes to all 32 bytes of the signature's R (S is used as a 256-bit number, without a canonicity test), returns the message and its length on success, and on failure reports no length and leaves no message bytes. Inputs shorter than a signature are refused unread. SHA-512 equals FIPS 180-4 for every message length.",
 ["inputs"],"all seeds, keys, messages of every length and signatures",
 "Tests sample a few keys and messages; padding edges, rare carries and skipped comparison bytes are not reached.",
 ["tweetnacl/tweetnacl.c"],[("crypto_sign, crypto_sign_open, keypair_seed, crypto_hash","tweetnacl.c")])
p("C19","Curve25519 field, group and scalar arithmetic is exact",
 "Field multiplication, squaring, addition, subtraction, inversion, packing and unpacking agree with arithmetic modulo 2^255-19 for all limb vectors the library can produce, with no 64-bit overflow; scalars are reduced modulo the group order exactly; point addition and scalar multiplication (Edwards) and the X25519 ladder compute the specified group operation for every scalar; packing yields the unique canonical encoding.",
 ["inputs"],"all limb vectors in range, all scalars, all points",
 "Rare carry and reduction cases occur with probability near 2^-16 to 2^-250 on random inputs.",
 ["tweetnacl/tweetnacl.c"],[("M, car25519, pack25519, modL, add, scalarmult","tweetnacl.c")])
p("C20","Secret-key and public-key boxes authenticate before decrypting",
 "Secretbox and box open succeed exactly when the 16-byte Poly1305 tag computed under the key stream equals all 16 bytes of the received tag, and then decrypt to the message that was encrypted; no plaintext is produced otherwise. Salsa20, HSalsa20 and Poly1305 equal their specifications for every key, nonce and message length.",
 ["inputs"],"all keys, nonces, messages of every length, tags",
 "No test touches these functions.",
 ["tweetnacl/tweetnacl.c"],[("crypto_secretbox*, crypto_box*, crypto_stream*, crypto_onetimeauth*","tweetnacl.c")])
p("C21","Calls keep no hidden state and leak no memory",
 "No library call reads or writes mutable global state (apart from the operating system random source), so results depend only on arguments and fresh randomness and calls on different threads with different buffers do not interfere. Every heap allocation made during a call that completes is released exactly once before it returns, except for hash contexts handed to the caller.",
 ["histories","schedules"],"all call sequences and interleavings of calls on disjoint buffers",
 "Interference and leaks do not show in single-threaded single-call assertions.",
 ["common/fips202.c","sphincs/context_shake.c","dilithium2/symmetric-shake.c","tweetnacl/tweetnacl.c"],[("absence of mutable globals","all sources"),("context release","fips202.c")])
p("C22","The WebAssembly wrappers forward faithfully and wipe freed memory",
 "Each exported wrapper returns exactly what the wrapped library call returns, with the same arguments in the same order, and the wiping free overwrites all bytes of the buffer with zero before releasing it, exactly once.",
 ["inputs"],"all arguments",
 "The wrapper file is not compiled by the test suite at all.",
 ["wasm/hybrid-pqc.c"],[("dp_* wrappers, mem_free","wasm/hybrid-pqc.c")])
p("C23","Forging a hybrid signature requires breaking every component",
 "No efficient adversary without the secret key can produce a full-mode signature on a new message unless it can forge Ed25519, Dilithium and SPHINCS+ signatures.",
 ["programs"],"all efficient adversaries","A computational-hardness statement; no test can address it.",
 [H],[("conjunction of component verifiers","hybrid.c")])
p("C24","Secret-dependent timing is absent from signing",
 "The sequence of branches and memory addresses during signing does not depend on secret key bytes other than through values the scheme publishes.",
 ["inputs","programs"],"all secret keys","Timing is not observed by functional tests.",
 ["dilithium2/sign.c","tweetnacl/tweetnacl.c","sphincs/sign.c"],[("constant-time style code","all")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
