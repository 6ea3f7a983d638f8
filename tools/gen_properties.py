#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run to regenerate it."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Every boolean gate computes its truth table on every valid ciphertext",
 "For every homomorphic boolean gate (NAND, AND, OR, XOR, XNOR, NOR, ANDNY, ORNY, ANDYN, ORYN, MUX, NOT, copy, constant), every input bit combination and every security level, decrypting the gate's result gives the truth-table value of the decrypted inputs. This holds whatever produced the inputs: fresh secret-key encryption, public-key encryption, a constant, a negation, another gate's result, or the same ciphertext passed as several operands.",
 ["inputs", "configurations"], "all gates x all input bits x all origins of the operands (incl. aliased operands) x all security levels x all keys and encryption randomness",
 "The tests try each gate on fresh encryptions under one or a few 128-bit keys; gates at the other levels, aliased operands, constants and mixed-origin operands are not tried at all.",
 ["gates/gates.go", "evaluator/gates_helper.go", "evaluator/evaluator.go", "trgsw/keyswitch.go"],
 [("linear combination + offset per gate", "gates/gates.go, evaluator/gates_helper.go"), ("sign bootstrap", "evaluator/evaluator.go:BootstrapAssign")],
 ["gates.* then DecryptBool", "exact phase of results under the secret key"])

prop("C02", "Gate circuits of any shape and depth agree with plaintext evaluation",
 "Any sequence of gate evaluations (arbitrary DAG, fan-out, depth, mixture of single and batch gates, e.g. ripple-carry adders) decrypts at every node to the value the plaintext circuit has there, because every gate output is noise-refreshed. Evaluating a gate never changes the bits of its operands, of any earlier result or of the evaluation key.",
 ["programs", "histories", "configurations"], "all circuits over the gate set, all inputs, all security levels",
 "Tests run one or two fixed adders/compositions of depth a few; they never check earlier results again nor deep chains.",
 ["gates/gates.go", "evaluator/evaluator.go", "evaluator/buffers.go"],
 [("noise refresh by bootstrapping", "evaluator/evaluator.go"), ("results copied out of reusable buffers", "gates/gates.go:bootstrap")],
 ["decryption and exact phase at every node", "bitwise snapshots of operands/results/key"])

prop("C03", "Batch gates equal the element-wise gate for any batch and schedule",
 "A batch gate called with any number of pairs (0, 1, more than the number of cores, pairs sharing ciphertexts) returns one result per pair, in order, each decrypting to the same value as the corresponding single gate. This holds for every scheduling of the workers, and the results stay intact when further batches or gates run, concurrently or later.",
 ["inputs", "schedules", "histories"], "all batch sizes and contents, all six batch gates, all GOMAXPROCS/schedules, all later call histories, all levels",
 "Tests use one small batch per gate (XNOR was wrong and untested), never overlapping batches, and look at results immediately.",
 ["gates/gates.go", "trgsw/trgsw.go"],
 [("worker pool with per-worker evaluator", "trgsw/trgsw.go:BatchBlindRotate"), ("index-addressed result slots", "gates/gates.go:Batch*")],
 ["decryption of each result", "bitwise stability of earlier results"])

prop("C04", "Programmable bootstrapping evaluates any function on any message",
 "For every function on the message space, every message and every message modulus the parameter set supports, programmable bootstrapping of an encryption of x decrypts to f(x) reduced modulo the message modulus, with refreshed noise so results can be bootstrapped again. All entry points (function or prebuilt table, allocating, assigning (also onto the input itself) or temporary result, original or copied evaluator) agree, and a table can be reused any number of times.",
 ["inputs", "configurations", "histories"], "all f: Z_m -> Z (incl. negative and >= m outputs), all x, all supported m per level (incl. non powers of two), chains of bootstraps, all entry points",
 "Tests try identity/NOT/constant/AND on m=2,4 and one function per Uint level on a few messages.",
 ["evaluator/programmable_bootstrap.go", "lut/generator.go", "lut/encoder.go", "tlwe/programmable_encrypt.go"],
 [("LUT as test vector + blind rotation", "evaluator/programmable_bootstrap.go:BootstrapLUTAssign"), ("redundant LUT encoding", "lut/generator.go:GenLookUpTableAssign")],
 ["DecryptLWEMessage of the result"])

prop("C05", "Bootstrapping maps any ciphertext to the table entry its phase selects",
 "For any ciphertext (any body; any unstructured mask, including single coefficients at extreme and rounding-boundary values) and any table polynomial, plain or encrypted under the ring key, bootstrapping yields an encryption of the table coefficient selected by the ciphertext's phase rounded component-wise to multiples of 1/(2N), with negacyclic sign, up to a bounded noise that does not depend on the input noise. The evaluator path and the batch/functional blind-rotation path give the same answer.",
 ["inputs", "configurations"], "all LWE ciphertexts (not only valid encryptions), all test polynomials, all levels, both blind-rotation implementations",
 "Tests only bootstrap valid +-1/8 encryptions through constant tables, where wrong rotations of hundreds of slots are invisible.",
 ["evaluator/evaluator.go", "trgsw/trgsw.go", "trlwe/trlwe_ops.go", "trgsw/keyswitch.go"],
 [("rounding to 2N", "BlindRotateAssign / BlindRotate"), ("CMUX accumulation", "CMuxAssign / CMUX")],
 ["exact phase of the output against table[index]"])

prop("C06", "Lookup tables hold f(x) at every phase that decodes to x",
 "For every function, message modulus (up to half the ring degree) and scale, the generated lookup table contains the encoding of f(x) at every phase of the half torus nearer to message x than to any other message (up to one table position at a boundary when the modulus does not divide the degree), the negacyclic negation at the wrap-around phases, and a zero mask. The integer, full-torus, custom-modulus/scale and assigning variants agree (overwriting any previous contents, leaving the generator unchanged), and copying or clearing tables never affects another table.",
 ["inputs", "configurations", "histories"], "all m in 1..N, all f, all scales, all table positions, all levels; all generate/copy/clear histories on tables",
 "Tests look at a few positions for m=2,4 at N=1024 only.",
 ["lut/generator.go", "lut/encoder.go", "lut/lut.go"],
 [("range fill, half-slot rotation, tail negation", "lut/generator.go")],
 ["every coefficient of the generated table"])

prop("C07", "Encrypting then decrypting returns the plaintext, for all encodings",
 "For every secret key, security level and plaintext, decryption of a fresh encryption returns the plaintext: booleans at both LWE levels, boolean vectors in ring ciphertexts, bit strings, and integer messages for any modulus (including messages outside [0, m) which are reduced modulo m). Decryption gives the nearest encoding for every ciphertext whose noise stays below half the spacing, and encoder encode/decode round-trips.",
 ["inputs", "configurations"], "all plaintexts, moduli 2..4096, negative/overflowing messages, noise up to the decoding radius, all levels",
 "Tests encrypt a handful of booleans and messages m<=8 with negligible noise.",
 ["tlwe/tlwe.go", "tlwe/programmable_encrypt.go", "trlwe/trlwe.go", "lut/encoder.go", "bitutils/bitutils.go", "key/key.go"],
 [("phase computation and rounding", "tlwe/*.go, lut/encoder.go")],
 ["decryption results; decryption of hand-made ciphertexts with chosen phase"])

prop("C08", "LWE ciphertext arithmetic is exactly linear on phases",
 "Adding, subtracting, negating and scaling LWE ciphertexts acts exactly (modulo 2^32) as the same operation on their phases, for every ciphertext, multiplier and key, including operands that are the same object and outputs that alias an operand. Operands are not modified and results share no memory with them.",
 ["inputs", "histories"], "all ciphertext pairs, all 32-bit multipliers, all aliasing patterns, all operation sequences, all levels",
 "Tests add or negate one encryption and look at the decrypted boolean, which hides errors of up to 1/8 of the torus.",
 ["tlwe/tlwe.go", "evaluator/gates_helper.go"],
 [("component-wise wrapping arithmetic", "tlwe/tlwe.go")],
 ["exact phases under arbitrary keys, bitwise components"])

prop("C09", "Polynomial products equal exact negacyclic products",
 "For every power-of-two degree from 16 up, transforming a polynomial and back is the identity, and every product, multiply-add, multiply-subtract, sum, difference and scaling computed through the transform equals the exact product in Z_2^32[X]/(X^N+1) whenever coefficient products are within the documented 48-bit bound, and otherwise differs only by floating-point relative error. Operands of non-destructive operations are unchanged.",
 ["inputs", "configurations"], "all polynomials (sparse, dense, extreme coefficients), all degrees 16..4096, all entry points",
 "The multiplication test checks only that the result is not nil; the round trip is tried on one polynomial.",
 ["poly/fourier_transform.go", "poly/fourier_ops.go", "poly/poly_mul.go", "poly/poly_evaluator.go", "poly/buffer_methods.go"],
 [("folded complex FFT with twisted twiddles", "poly/fourier_transform.go")],
 ["coefficients against an integer schoolbook product"])

prop("C10", "Multiplication by X^k is the exact ring rotation for every integer k",
 "Multiplying a polynomial by X^k gives, for every integer k (0, N, 2N, negative, beyond 2N), exactly the coefficients rotated by k with sign change on each wrap, so rotations compose: X^j then X^k equals X^(j+k), and X^N negates. The input is not modified.",
 ["inputs"], "all polynomials, all k, all degrees, all rotation entry points",
 "No test calls rotation directly.",
 ["poly/buffer_methods.go"],
 [("PolyMulWithXKInPlace and pooled/direct wrappers", "poly/buffer_methods.go")],
 ["all coefficients against the definition"])

prop("C11", "Gadget decomposition digits are bounded and recompose to the input",
 "For every polynomial and every parameter set (and any other base/level combination fitting 32 bits), each decomposition digit lies in [-Bg/2, Bg/2) and the digits recombined with powers of the base differ from the input coefficient by less than one unit of the last level. Digits of one coefficient depend on no other coefficient or previous buffer contents.",
 ["inputs", "configurations"], "all 2^32 coefficient values (sampled with boundary emphasis), all levels' (Bg, L), custom (bgbit, level) pairs, dirty buffers",
 "Not tested directly; only indirectly through gates which tolerate large errors.",
 ["poly/decomposer.go", "cloudkey/cloudkey.go", "trgsw/trgsw.go"],
 [("offset trick", "cloudkey/cloudkey.go:genDecompositionOffset, poly/decomposer.go")],
 ["digits returned in the decomposition buffers"])

prop("C12", "External product and CMUX select and multiply as specified",
 "The external product of an encryption of a small integer m with a ring ciphertext of plaintext polynomial p decrypts to m*p within a bound set by the decomposition precision and key noise, and CMUX returns a ciphertext of its first input's plaintext when the control bit is 0 and of the second when it is 1. The two implementations agree, the output may be the first input in the assigning form, and inputs and control are not modified.",
 ["inputs", "configurations", "histories"], "all plaintext polynomials and masks, m in {0,1,-1,small}, all levels, all aliasing patterns, sequences on one evaluator",
 "Not tested directly.",
 ["evaluator/evaluator.go", "trgsw/trgsw.go"],
 [("decompose, transform, accumulate, inverse", "ExternalProductAssign / ExternalProductWithFFT")],
 ["exact phase polynomial of the output"])

prop("C13", "Sample extraction yields exactly the chosen coefficient's phase",
 "For every ring ciphertext, ring key and index, the extracted LWE sample under the key's coefficient vector has exactly the phase of that coefficient of the ring ciphertext. The allocating and assigning forms agree bit for bit, fully overwrite the output and do not modify the input.",
 ["inputs", "configurations"], "all ring ciphertexts, all binary and non-binary keys, all indices 0..N-1, all ring degrees in use",
 "No direct test; only index 0 is exercised, with approximate decryption.",
 ["trlwe/trlwe.go", "trlwe/trlwe_ops.go"],
 [("reversal with negacyclic sign", "SampleExtractIndex*")],
 ["exact phases"])

prop("C14", "Key switching preserves the phase up to its rounding and key noise",
 "For every level-1 LWE ciphertext and pair of keys, key switching returns a level-0 ciphertext whose phase under the target key equals the input's phase up to half a unit of the decomposition precision per key coefficient plus the noise of the key-switching key entries used. Both implementations return identical ciphertexts, overwrite whatever the output held, and do not modify the input.",
 ["inputs", "configurations"], "all ciphertexts (digits 0 and base-1, boundary masks), all key pairs, all levels, noiseless and real keys",
 "Only indirectly exercised; the boolean gates tolerate errors of 12% of the torus.",
 ["trgsw/keyswitch.go", "trgsw/trgsw.go", "cloudkey/cloudkey.go"],
 [("rounded digit decomposition", "IdentityKeySwitchingAssign / IdentityKeySwitching")],
 ["exact phases; bitwise equality of both forms"])

prop("C15", "Cloud key entries encrypt exactly what evaluation needs",
 "For every secret key and level, each key-switching entry for (coefficient, digit level, digit value) decrypts to digit * key bit / base^level within the declared noise, each bootstrapping entry is a gadget encryption of the matching key bit in transform form, the default test vector is the constant 1/8 with zero mask, and the decomposition offset fits the gadget. The number of entries matches the parameter set, and generation leaves the secret key unchanged.",
 ["inputs", "configurations"], "all secret keys (random, all-zero, all-one, sparse), every entry of the key, all levels",
 "Tests only check lengths or use the key; a few wrong entries among hundreds of thousands go unnoticed.",
 ["cloudkey/cloudkey.go", "trgsw/trgsw.go", "tlwe/tlwe.go", "trlwe/trlwe.go"],
 [("parallel generation, one slot per index", "genKeySwitchingKey, genBootstrappingKey")],
 ["decryption of every entry"])

prop("C16", "Proxy re-encryption preserves the plaintext under the target key",
 "Re-encrypting any ciphertext from one key to another (symmetric or asymmetric mode, any decomposition base and depth up to 32 bits, any number of hops) gives a ciphertext decrypting under the target key to the same value, its phase differing only by the rounding of each mask coefficient to the smallest digit unit and the re-encryption key's noise. The conversion is one-directional, and neither the source ciphertext nor the re-encryption key is modified.",
 ["inputs", "configurations", "histories"], "all ciphertexts, key pairs, modes, (base, depth) parameters, hop chains, levels",
 "Tests re-encrypt a few booleans with default parameters (one of them is flaky).",
 ["proxyreenc/proxyreenc.go"],
 [("digit decomposition + public/secret-key encryption of digit multiples", "proxyreenc/proxyreenc.go")],
 ["exact phase and decryption under the target key"])

prop("C17", "Public-key encryption decrypts correctly with fresh randomness",
 "A public key holds the requested number of distinct fresh encryptions of zero under the secret key, and encrypting any boolean or real value with it gives a ciphertext decrypting to that value under the secret key with noise bounded by the declared parameters. Each encryption uses fresh randomness: two encryptions of the same value never coincide, and encrypting does not modify the public key.",
 ["inputs", "configurations"], "all plaintexts, secret keys, key sizes (0, 1, default, larger), noise levels, security levels",
 "Tests encrypt two booleans with default parameters.",
 ["proxyreenc/proxyreenc.go"],
 [("random signed subset sum of zero encryptions", "PublicKeyLv0.EncryptF64")],
 ["exact phases, masks"])

prop("C18", "Keys, masks and noise are fresh, independent and unpredictable",
 "Every key generation and every encryption draws fresh randomness: key bits are unbiased, masks are uniform in every bit and position, no two ciphertexts (in a cloud key, public key, ring or LWE encryptions, made sequentially or concurrently) share a mask or noise, and nothing can be reproduced by seeding the language's global generator.",
 ["inputs", "schedules", "histories"], "all call sequences of key generation and encryption, concurrent or not, at all levels",
 "No test looks at randomness; a generator with 31-bit seeds passed them all.",
 ["utils/rand.go", "key/key.go", "tlwe/tlwe.go", "trlwe/trlwe.go", "proxyreenc/proxyreenc.go", "cloudkey/cloudkey.go"],
 [("operating-system randomness per encryption", "utils/rand.go:NewRand")],
 ["collision, balance and reproducibility statistics of outputs"])

prop("C19", "Fresh noise has the magnitude and shape the parameter set declares",
 "The noise of every fresh ciphertext (LWE levels 0 and 1, ring, key-switching, bootstrapping and public-key entries) is centred, has the standard deviation requested or declared by the active parameter set - neither larger, which breaks decryption, nor smaller, which breaks security - and is independent across coefficients and of the plaintext. A requested standard deviation of zero gives exact encryptions.",
 ["inputs", "configurations"], "all levels, all requested standard deviations, all plaintexts, all ciphertext kinds",
 "No test measures noise.",
 ["utils/utils.go", "tlwe/tlwe.go", "trlwe/trlwe.go", "trgsw/trgsw.go", "cloudkey/cloudkey.go", "params/params.go"],
 [("Gaussian sampling on the torus", "utils/utils.go"), ("declared alphas", "params/params.go")],
 ["exact noise recovered with the secret key"])

prop("C20", "Security levels can be switched at any time without cross-talk",
 "After any sequence of security-level changes in one process, keys, ciphertexts, gates, batch gates, programmable bootstrapping, tables and proxy re-encryption work at the level now selected, and keys and ciphertexts made at a level work again when that level is reselected. Nothing pooled or cached under one level affects results at another.",
 ["histories", "configurations"], "all sequences of level switches interleaved with operations",
 "Tests switch levels only to read parameters or for one evaluator each; gates after a switch panicked.",
 ["gates/gates.go", "trgsw/trgsw.go", "evaluator/buffers.go", "params/params.go"],
 [("pools keyed/checked by level", "gates/gates.go:evalPool, trgsw/trgsw.go:BatchBlindRotate")],
 ["decryption results after switches"],
 [dict(name="CurrentSecurityLevel", meaning="process-wide selected parameter set", where="params/params.go")])

prop("C21", "Concurrent evaluation gives the same results as sequential evaluation",
 "Gates, batch gates, encryption, key generation, and bootstrapping on separate evaluators or evaluator copies may run in any number of goroutines at once on shared keys and shared input ciphertexts: every result is correct and there are no data races.",
 ["schedules", "programs"], "all interleavings of concurrent calls sharing keys and inputs, all goroutine counts",
 "Tests are sequential.",
 ["gates/gates.go", "evaluator/evaluator.go", "poly/poly_evaluator.go", "trgsw/trgsw.go", "cloudkey/cloudkey.go"],
 [("per-goroutine evaluators from pools; immutable shared tables", "gates/gates.go, evaluator/evaluator.go:ShallowCopy")],
 ["results vs. sequential model; Go race detector"])

prop("C22", "Results live as documented and operations never modify their inputs",
 "Results of allocating operations own their memory and are never changed by later operations or by overwriting another result; temporary results stay valid for the documented number of further bootstraps (four result slots); assigning operations write only their output, whatever it held before. No evaluation, table, key or encryption operation modifies its input ciphertexts, tables, test vector or keys, and repeating an operation on the same inputs gives the identical ciphertext.",
 ["histories", "inputs"], "all sequences of evaluator operations on one evaluator, including buffer resets and dirty outputs",
 "Tests consume each result immediately and never re-check inputs.",
 ["evaluator/evaluator.go", "evaluator/buffers.go", "evaluator/programmable_bootstrap.go", "poly/buffer_methods.go", "poly/buffer_manager.go"],
 [("copy-out for allocating calls; round-robin result pool of 4", "evaluator/buffers.go:GetNextResult")],
 ["bitwise snapshots across operation histories"],
 [dict(name="ResultPool", meaning="round-robin pool of 4 result slots", where="evaluator/buffers.go")])

prop("C23", "Torus and bit-string conversions are exact and mutually inverse",
 "Converting a real number to the torus gives its fractional part times 2^32 (truncated toward zero, negative values wrapping), for every magnitude and sign, and converting back loses nothing; vector and scalar forms agree. Splitting an integer of any width into bits and rebuilding it is the identity, least significant bit first, for every width and value (shorter bit lists are zero-extended).",
 ["inputs"], "all float64 in the supported range, all torus values, all 8/16/32/64-bit integers, all bit-string lengths",
 "Tests check a few constants.",
 ["utils/utils.go", "bitutils/bitutils.go"],
 [("math.Mod scaling", "utils/utils.go"), ("shift loops", "bitutils/bitutils.go")],
 ["returned values against big-number arithmetic"])

prop("C24", "Each security level's parameters are coherent and select that level",
 "For every security level, all parameter getters describe the same level (dimensions, noise, gadget and key-switching parameters agree between getters and with the sizes of freshly created keys and ciphertexts), digits fit in 32 bits, ring degree and bases are powers of two, declared noise is what keys and encryptions use by default, and the expected bootstrapping noise leaves the level's documented message space decodable. The values are those the package and README document, an unknown level selects the default 128-bit set, reading parameters never changes them, and level descriptions identify the level.",
 ["configurations", "histories"], "all eleven levels, all getter orders and switch histories",
 "Tests compare some constants for some levels.",
 ["params/params.go", "key/key.go", "cloudkey/cloudkey.go"],
 [("per-level tables and switch getters", "params/params.go")],
 ["getter values, sizes of created objects, derived noise budget"])

prop("C25", "Multi-bit integer programs on encrypted digits agree with integer arithmetic",
 "Programs that mix linear operations on message ciphertexts (sums, differences, multiples, negation, adding plaintext constants) with programmable bootstraps of any function, conversions between messages and booleans, and gates, compute at every node what the same program computes on integers: radix additions of two or several numbers, subtraction with borrow and scaling with carries from lookup tables give the digits of the exact result. A lookup whose argument lies in the upper half of the circle gives the negated entry, and every lookup result carries only fresh noise, whatever was accumulated before it.",
 ["programs", "inputs", "configurations"], "all programs of linear operations, lookups, conversions and gates whose known noise stays within the message slots; all digits, bases, lengths, functions and levels",
 "The documented adders and multi-bit demos are run on a few fixed numbers; tests bootstrap fresh encryptions only, never sums, the upper half or several lookups in a row.",
 ["evaluator/programmable_bootstrap.go", "lut/generator.go", "lut/encoder.go", "tlwe/tlwe.go", "gates/gates.go"],
 [("lookup on a linear combination", "evaluator/programmable_bootstrap.go"), ("message scale shared by tables, encryption and constants", "lut/encoder.go")],
 ["exact phases of every program value against an integer model"])

prop("C26", "Every operation completes and leaves nothing behind",
 "Every call returns, for every input size (also empty and very small batches) and every number of processors; when it has returned, no goroutine it started is left and no memory is retained beyond what it returned, so a process can go on evaluating for ever. A caller's function that panics inside table generation or a bootstrap propagates to the caller and leaves the library usable.",
 ["histories", "faults"], "all histories of operations, batch sizes, processor counts and panicking caller functions",
 "Tests end before a leak or a lost goroutine can be seen and never make a callback fail.",
 ["gates/gates.go", "trgsw/trgsw.go", "cloudkey/cloudkey.go", "evaluator/programmable_bootstrap.go", "lut/generator.go"],
 [("worker goroutines joined by WaitGroup", "gates/gates.go, trgsw/trgsw.go, cloudkey/cloudkey.go"), ("evaluators returned to pools", "gates/gates.go:evalPool")],
 ["goroutine count, retained heap, watchdog"])

prop("C27", "Keys and ciphertexts are self-contained data",
 "A secret key, cloud key, re-encryption key, lookup table or ciphertext is completely described by its exported fields: a copy made from them (by serialising to gob or JSON, in the same or another process) behaves identically, bit for bit, in every operation; and an object whose contents are replaced in place by those of another key pair behaves like that other object. No result depends on an object's address or on the history of the process.",
 ["histories", "configurations"], "all operations, all copies of their arguments, all replacements of contents between calls",
 "Tests use each key in the process and at the address where it was generated.",
 ["cloudkey/cloudkey.go", "key/key.go", "tlwe/tlwe.go", "trgsw/trgsw.go", "proxyreenc/proxyreenc.go", "lut/lut.go"],
 [("plain exported fields, no hidden or cached state", "cloudkey/cloudkey.go:CloudKey, tlwe/tlwe.go, trgsw/trgsw.go")],
 ["bitwise comparison of results from originals, copies and another process"])

prop("C28", "Misuse and failed randomness are refused, never answered",
 "A ring degree that is not a power of two or is too small, an unknown scratch-buffer name, a buffer index or decomposition level beyond what there is, and a ring of the wrong dimension for level-0 extraction are refused (panic) for every value, every valid value is accepted, and a refused call changes nothing. If the system's randomness fails, no key or ciphertext is produced from less than the randomness it needs; randomness that arrives in small pieces gives exactly the same result as in one piece. Malformed (short) ciphertexts or keys in one call never affect a later, valid call.",
 ["inputs", "faults"], "all degrees, names, indices, dimensions; all points and ways at which reading randomness fails or is cut short; all operations given short objects",
 "Tests make valid calls only, with the operating system's randomness always working.",
 ["poly/poly.go", "poly/aligned.go", "poly/poly_evaluator.go", "poly/buffer_methods.go", "poly/decomposer.go", "trlwe/trlwe.go", "utils/rand.go"],
 [("argument checks that panic", "poly/poly.go, poly/buffer_methods.go, poly/decomposer.go, trlwe/trlwe.go:SampleExtractIndex2"), ("block reads that panic on failure", "utils/rand.go:Uint64")],
 ["panics, results of later calls, output of fresh processes with a failing random source"])

prop("C29", "Scratch buffers are disjoint, whole and last as long as documented",
 "The buffers that evaluators, buffer managers, buffer pools and decomposers hand out are complete (ring degree, LWE dimension, two gadgets' levels), share no memory with each other or with those of another or copied object, and hold what was put into them until they are documented to be reused: rotation, TRLWE and result buffers until four more of their kind are asked for or the pool is reset, decomposition buffers in both domains until rewritten, accumulators until read. The accumulators give the exact sum of the products added since they were cleared, whatever other polynomial operations come in between.",
 ["histories", "configurations"], "all histories of buffer requests, resets, writes, buffered multiplications and unrelated operations on several evaluators, all degrees and levels",
 "Tests use one buffer at a time, at one degree.",
 ["poly/buffer_methods.go", "poly/buffer_manager.go", "poly/poly_evaluator.go", "poly/decomposer.go", "evaluator/buffers.go"],
 [("round-robin pools of four", "poly/buffer_methods.go, poly/buffer_manager.go, evaluator/buffers.go"), ("named Fourier accumulators", "poly/buffer_methods.go:MulAddFourierPolyAssignBuffered")],
 ["contents and addresses of every buffer after every call against a model"],
 [dict(name="rotationIdx, trlweIdx, ResultPool.Index", meaning="next slot of each pool", where="poly/poly_evaluator.go, poly/buffer_manager.go, evaluator/buffers.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
