#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("F01", "Field arithmetic equals integer arithmetic modulo the prime",
 "For every odd prime modulus of up to 1024 bits and all operands, every field operation (assign, add, subtract, multiply, square, negate, power, the forms taking a machine-word operand, compare, bit test, swap and conditional swap) gives exactly the result of the same operation on integers modulo p. "
 "The result is always the canonical residue in [0, p), whatever operands share storage with the destination and whatever field the destination belonged to before. "
 "Operands other than the destination are left unchanged.",
 ["inputs", "histories"],
 "all odd primes p up to 1024 bits (including primes at machine-word boundaries), all residues and integer/machine-word operands, all aliasing patterns, all sequences of operations over elements of several fields",
 "The existing tests use a few fixed primes and random residues; carries, borrows and reductions at word boundaries, word operands larger than p, and destinations recycled from another field are hit with negligible probability.",
 ["src/field.c", "include/ecc/field.h"],
 [("limb-level add/sub with conditional correction", "src/field.c mpFp_add, mpFp_sub, mpFp_add_ui, mpFp_sub_ui"),
  ("multiply then reduce, zero padding to field width", "src/field.c mpFp_mul, mpFp_mul_ui, mpFp_sqr, mpFp_pow_ui, mpFp_pow_mpz"),
  ("field table lookup shared by all elements", "src/field.c _mpFp_field_lookup")],
 ["value of an element read back as an integer", "result of compare / bit test"],
 [("field list", "one shared record per distinct modulus seen by the process", "src/field.c _static_field_list")])

prop("F02", "Inverse and square root are right, or refused exactly when none exists",
 "For every odd prime modulus and every element, modular inversion succeeds exactly for non-zero elements and returns the unique element whose product with the operand is 1; square root succeeds exactly for zero and quadratic residues and returns an element whose square is the operand. "
 "Both always terminate, for every residue class of the prime and every power of two dividing p-1.",
 ["inputs"],
 "all odd primes up to 1024 bits, including primes where p-1 is divisible by a high power of two; all elements; operand and result sharing storage",
 "Tests sample random elements of a few primes; primes with a high power of two in p-1 (such as the built-in 224-bit prime) fail only for particular elements.",
 ["src/field.c"],
 [("Tonelli-Shanks", "src/field.c mpFp_sqrt"), ("inversion", "src/field.c mpFp_inv")],
 ["status code", "product/square of the result"])

prop("C01", "Curve membership and curve construction are exact",
 "For every supported curve form (short Weierstrass, Edwards, twisted Edwards, Montgomery) and every pair of coordinates, the membership test answers yes exactly when the pair satisfies the curve equation over the field. "
 "Building a curve from its parameters (as integers or as text) succeeds exactly when the parameters are usable numbers and the given generator lies on the curve, and otherwise reports an error without crashing; the parameters read back from a successfully built curve are the ones given.",
 ["inputs", "configurations"],
 "all coefficient values of all four curve forms over all primes (tiny, word-boundary and large), all coordinate pairs on, near and off the curve, well-formed and malformed parameters, curve objects built fresh or rebuilt from another form",
 "Tests check generators of named curves and very few off-curve points; they never vary coefficients nor rebuild an object as another form.",
 ["src/ecurve.c", "include/ecc/ecurve.h"],
 [("membership equation per form", "src/ecurve.c mpECurve_point_check"),
  ("constructors", "src/ecurve.c mpECurve_set_str_*, mpECurve_set_mpz_*, mpECurve_set_named")],
 ["membership answer", "constructor status", "public curve parameters"])

prop("C02", "Curve equality and copies are faithful; built-in curves are sound",
 "Two curves compare equal exactly when their form, field, coefficients, order, cofactor and generator are all equal, and a copy of a curve is equal to the original and stays so whatever is later done to the original. "
 "Every built-in curve has a prime field, a prime group order, a generator on the curve with exactly that order, a cofactor consistent with the size of the field, and a declared size equal to the bit length of its prime; unknown names are refused.",
 ["inputs", "histories", "configurations"],
 "all pairs of curves, in particular pairs that differ in exactly one parameter (including only the field); all sequences of build, copy, rebuild, compare; all built-in names and near-miss names",
 "Tests compare a handful of curves over the same field and never validate orders or cofactors of the table.",
 ["src/ecurve.c"],
 [("comparison", "src/ecurve.c mpECurve_cmp"), ("copy", "src/ecurve.c mpECurve_set"), ("table", "src/ecurve.c _std_ws_curve ... mpECurve_set_named")],
 ["comparison result", "parameters of the copy"])

prop("P01", "Point addition, doubling, subtraction, negation follow the group law",
 "On every valid curve of the four supported forms, addition, doubling, subtraction, negation and comparison of any points - including the neutral element, equal points, opposite points and points of small order - give exactly the result of the mathematical group law. "
 "This holds whatever internal (projective) representation the operands have acquired from earlier operations and whichever operands are the same object as the destination.",
 ["inputs", "histories", "configurations"],
 "all valid curves (tiny curves of prime and composite order with any coefficients, word-boundary fields, and every built-in curve), all pairs of points on the curve including low-order points, all aliasing patterns, all chains of operations",
 "Tests use multiples of the generator on a few built-in curves; exceptional pairs (difference of order two, low-order points, non-unit scaling coefficients) never occur among them.",
 ["src/ecpoint.c", "src/ecurve.c"],
 [("complete addition (short Weierstrass / Montgomery)", "src/ecpoint.c mpECP_add"),
  ("Edwards and twisted Edwards addition", "src/ecpoint.c mpECP_add"),
  ("Montgomery <-> Weierstrass transform", "src/ecpoint.c _transform_mo_to_ws, _transform_ws_to_mo_x; src/ecurve.c mpECurve_set_mpz_mo")],
 ["affine coordinates and encodings of results", "comparison result"])

prop("P02", "Scalar multiplication equals repeated addition for every scalar",
 "For every curve, every point on it and every integer scalar (zero, negative, larger than the group order or than the field prime, any size), scalar multiplication yields the scalar reduced modulo the declared order times the point, as computed by independent repeated addition. "
 "Consequently multiplying by the order gives the neutral element for points of the prime-order group, and multiplication distributes over scalar addition.",
 ["inputs", "configurations"],
 "all curves including those whose order has more bits than the field prime, all points including those outside the generator's group, all scalars",
 "Tests use fixed vectors and random scalars on a few curves; the top bit of an order longer than the field, and special scalars, are not sampled.",
 ["src/ecpoint.c"],
 [("Brier-Joye ladder", "src/ecpoint.c mpECP_scalar_mul"), ("reduction of integer scalars", "src/ecpoint.c mpECP_scalar_mul_mpz")],
 ["affine coordinates and encodings of results"])

prop("P03", "Precomputed base-point multiplication always equals plain multiplication",
 "Multiplication that uses a point's precomputed table gives the same result as plain scalar multiplication for every point and scalar. "
 "This remains true after any history of assigning, importing, swapping, adding, negating or re-targeting the point object to another curve: a table is never used for a value it was not built for.",
 ["inputs", "histories"],
 "all points and scalars, all interleavings of table set-up with operations that overwrite or exchange the point, across curves of different sizes",
 "Tests build a table once per fresh point and never modify the point afterwards.",
 ["src/ecpoint.c"],
 [("table construction and lookup", "src/ecpoint.c mpECP_scalar_base_mul_setup, mpECP_scalar_base_mul"),
  ("table invalidation", "src/ecpoint.c _mpECP_base_pts_cleanup and its callers, mpECP_swap")],
 ["encodings of results"],
 [("base table", "multiples of the point, by window", "include/ecc/ecpoint.h base_pt, base_bits")])

prop("P04", "An operation changes its destination and nothing else",
 "After any sequence of point, field and curve operations over several curves and many objects, every object holds exactly the value a simple reference model predicts: no operation alters the value of an operand that is not its destination, nor any other point, nor any curve object. "
 "A destination may previously have belonged to any other curve.",
 ["histories"],
 "all sequences of create, assign, arithmetic, multiply, import, export, swap, copy and destroy operations on points and curves of mixed forms, with arbitrary sharing between operands and destination",
 "Tests run short fixed sequences with fresh objects on one curve.",
 ["src/ecpoint.c", "src/ecurve.c", "src/field.c"],
 [("destination re-targeting", "src/ecpoint.c mpECP_set, mpECP_add, mpECP_set_neutral"), ("in-place normalisation", "src/ecpoint.c _mpECP_to_affine"), ("swap", "src/ecpoint.c mpECP_swap, mpECP_cswap")],
 ["encodings of all live points", "parameters of all live curves"])

prop("E01", "Point encodings round-trip, are canonical and of the declared length",
 "For every point of every curve, exporting it (compressed or uncompressed, as bytes or as hexadecimal text) and importing the result gives back an equal point. "
 "The export has exactly the announced length, contains the standard header and the big-endian, zero-padded affine coordinates (the compressed header giving the parity of the affine y coordinate), and depends only on the point, not on how it was computed.",
 ["inputs", "configurations", "histories"],
 "all points (including the neutral element, points with zero coordinates or leading zero bytes, low-order points) of all curves of the four forms",
 "Tests round-trip the generator and neutral element of four curves; leading-zero coordinates, zero coordinates and non-trivial coefficients are not reached.",
 ["src/ecpoint.c"],
 [("export", "src/ecpoint.c mpECP_out_bytes, mpECP_out_str, mpECP_out_bytelen, mpECP_out_strlen"), ("import", "src/ecpoint.c mpECP_set_bytes, mpECP_set_str")],
 ["exported bytes/text", "comparison after import"])

prop("E02", "Importing untrusted point encodings accepts only valid points",
 "Importing an arbitrary byte string or text as a point either reports failure or yields a point that satisfies the curve equation and that the given encoding denotes; it never crashes, reads out of bounds, or accepts coordinates that are off the curve or not reduced modulo the field prime, a wrong length, an unknown header or a character that is not hexadecimal. "
 "Every encoding produced by export is accepted.",
 ["inputs"],
 "all byte strings and texts of any length, in particular mutations of valid encodings (header, length, coordinate, padding, characters), on all curves",
 "Tests import only well-formed encodings.",
 ["src/ecpoint.c"],
 [("decoder", "src/ecpoint.c mpECP_set_bytes"), ("text decoder", "src/ecpoint.c mpECP_set_str")],
 ["status code", "imported point"])

prop("S01", "Every signature produced verifies under the matching public key",
 "For every curve, every private key in [1, n-1], every non-empty message and every hash length, signing succeeds and yields r and s in [1, n-1] that verify for that message under the corresponding public key, both directly and after export and import. "
 "The values produced satisfy the standard ECDSA equations for the message hash.",
 ["inputs", "configurations"],
 "all curves (tiny orders where exceptional nonces are frequent, orders longer than the field, orders whose bit length is not a multiple of 8), keys, messages and hash lengths",
 "Tests sign a few messages on a few byte-aligned curves; the retry paths are taken with probability near zero there.",
 ["src/ecdsa.c"],
 [("signing loop", "src/ecdsa.c mpECDSASignature_init_Sign"), ("verification", "src/ecdsa.c mpECDSASignature_verify_cmp")],
 ["signature values", "verification result"])

prop("S02", "Signature verification accepts exactly what the ECDSA standard accepts",
 "Verification of any (signature, public key, message) answers valid exactly when the standard ECDSA verification procedure does, with the message hash truncated to its leftmost bits as the standard prescribes. "
 "In particular any change to the message hash, to r, to s or to the key that breaks the equation is rejected, and a key on another curve or a zero-length message gives an error result, never a crash.",
 ["inputs", "configurations"],
 "all curves and hash lengths; valid signatures, forged or tampered signatures, wrong keys (including the neutral element and keys of other curves), adversarially chosen hashes that drive the intermediate point to special values",
 "Tests verify published vectors and one tampered case; near-miss forgeries and special intermediate points are not generated.",
 ["src/ecdsa.c"],
 [("verification equation", "src/ecdsa.c mpECDSASignature_verify_cmp"), ("hash truncation", "src/ecdsa.c")],
 ["verification result compared with an independent implementation"])

prop("S03", "Signature serialisation round-trips and rejects out-of-range values",
 "Exporting a signature gives r then s, each big-endian and zero-padded to the byte length of the group order, as bytes or upper-case hexadecimal text, and importing it gives back the same signature. "
 "Import succeeds exactly for inputs of the right length, made only of hexadecimal digits in the text form, whose two values both lie in [1, n-1]; everything else is reported as an error without a crash.",
 ["inputs"],
 "all r, s in and around the valid range, all lengths, all byte strings and texts, on all curves",
 "Tests round-trip a few random signatures; boundary values, short values and malformed text are not generated.",
 ["src/ecdsa.c"],
 [("export", "src/ecdsa.c mpECDSASignature_export_bytes, mpECDSASignature_export_str"), ("import", "src/ecdsa.c mpECDSASignature_init_import_bytes, mpECDSASignature_init_import_str")],
 ["exported bytes/text", "import status"])

prop("S04", "Per-signature and per-encryption secrets are fresh and unpredictable",
 "The secret nonce behind each signature (recoverable by whoever holds the private key) and the ephemeral scalar behind each encryption are non-zero, independent of the key and message, cover the whole range [1, n-1] without observable bias and never repeat in practice, however many operations, schemes, curves or processes are involved.",
 ["histories", "configurations"],
 "all sequences of signing and encryption operations in one process, with equal and different keys, messages, curves and schemes, and across process forks",
 "Tests look at single signatures; repetition and bias are only visible over a history.",
 ["src/ecdsa.c", "src/ecelgamal.c", "src/mpzurandom.c", "src/field.c"],
 [("nonce draw", "src/ecdsa.c mpECDSASignature_init_Sign"), ("ephemeral draw", "src/ecelgamal.c mpECElgamal_init_encrypt"), ("random source", "src/mpzurandom.c mpz_urandom")],
 ["nonces recomputed from (r, s, key, hash)", "first ciphertext component"])

prop("G01", "ElGamal decryption inverts encryption for every key and plaintext point",
 "For every curve, private key, matching public key and plaintext point (including the neutral element, the public key itself and low-order points), decrypting an encryption with the private key returns exactly the plaintext. "
 "A ciphertext (C, D) always satisfies C = kG and D - plaintext = k times the public key for one k in [1, n-1]; operands on different curves are refused with an error, and curves that are equal but separate objects are treated as the same curve.",
 ["inputs", "configurations"],
 "all curves of the four forms, keys, plaintext points, combinations of equal and different curve objects, including ciphertexts rebuilt from their encodings",
 "Tests encrypt random points on a few curves with a shared curve object.",
 ["src/ecelgamal.c"],
 [("encrypt", "src/ecelgamal.c mpECElgamal_init_encrypt"), ("decrypt", "src/ecelgamal.c mpECElgamal_init_decrypt")],
 ["decrypted point", "ciphertext components"])

prop("R01", "Random integers, field elements and points are in range and uniform",
 "For every positive bound the random integer generator returns a value at least zero and below the bound, without observable bias in any bit or residue, and successive values are independent. "
 "Random field elements are canonical residues of their field and random points lie in the group generated by the curve's generator, covering it without observable bias.",
 ["inputs", "histories"],
 "all bounds (one, two, powers of two and neighbours, multi-word values), all moduli and curves, long sequences of draws",
 "Tests draw a few values and check only basic range or inequality.",
 ["src/mpzurandom.c", "src/field.c", "src/ecpoint.c"],
 [("oversampling and reduction", "src/mpzurandom.c mpz_urandom"), ("field element", "src/field.c mpFp_urandom"), ("point", "src/ecpoint.c mpECP_urandom")],
 ["drawn values (range, chi-square with vanishing false-alarm probability, collisions)"])

prop("R02", "Processes never share random output after a fork",
 "After a process that has already used the library forks, the parent and all its children (and their children) obtain different, independent random values, nonces and keys from then on.",
 ["histories", "schedules"],
 "all trees of forks interleaved with draws of any size in parents and children",
 "No test forks after drawing.",
 ["src/mpzurandom.c"],
 [("random source handle", "src/mpzurandom.c _f_urandom")],
 ["values drawn in each process"],
 [("open random source", "process-wide handle, inherited on fork", "src/mpzurandom.c _f_urandom")])

prop("R03", "Randomness stays fresh, in range and uniform through Python, Go and the tools",
 "Random field elements and points obtained from the Python extension and the Go package, the nonces of signatures and ephemeral scalars of encryptions made through them or through the command-line tools, the private keys made by the key generator and the message nonces of encrypted files all have the guarantees of the underlying generator: in range, over the whole range without observable bias, independent of keys and messages. "
 "No value is obtained twice in practice, whatever processes (including children of os.fork), goroutines or tool runs are involved.",
 ["inputs", "histories", "schedules"],
 "all curves and fields, all sequences of draws through each interface, fork trees in Python, concurrent goroutines in Go",
 "Tests of the bindings draw a handful of values and never compare processes, goroutines or distributions.",
 ["python/pyfield.c", "python/pypoint.c", "python/pyecdsa.c", "python/pyecelgamal.c", "ecgo/field.go", "ecgo/point.go", "ecgo/ecdsa.go", "ecgo/ecelgamal.go", "examples/ecdh_gen.c", "examples/ecdh_enc.c", "src/mpzurandom.c"],
 [("draws in the bindings", "python/pyfield.c FieldElement_urandom, python/pypoint.c ECPoint_urandom, ecgo/field.go NewFieldElementURandom, ecgo/point.go NewPointURandom"), ("random source", "src/mpzurandom.c mpz_urandom")],
 ["drawn values", "recovered nonces and ephemeral scalars", "key files"])

prop("M01", "No history of valid calls corrupts or leaks memory",
 "Any sequence of valid library calls - creating, assigning, re-targeting, swapping, computing with, exporting, importing (successfully or not), signing, verifying, encrypting and destroying objects in any order - performs no invalid memory access and no undefined operation. "
 "When all objects of the history have been destroyed, all memory allocated on their behalf has been released, apart from the bounded per-field cache.",
 ["histories", "inputs"],
 "all call sequences over fields, curves, points, tables, signatures and ciphertexts of mixed sizes, including calls that report errors",
 "The memory tests run a few fixed sequences under a checker; error paths and recycled objects are not covered.",
 ["src/field.c", "src/ecurve.c", "src/ecpoint.c", "src/ecdsa.c", "src/ecelgamal.c", "src/mpzurandom.c"],
 [("ownership of integers, tables and buffers", "init/clear pairs throughout src")],
 ["sanitizer reports", "count of outstanding allocations after repeating a history"])

prop("M02", "With safe-clean enabled, freed memory no longer holds secrets",
 "When the library's memory-cleaning functions are enabled, no block handed back to the system allocator on behalf of the big-number layer still contains data: every byte the block ever held is zero at the moment it is freed, whether it is released, grown or shrunk first. "
 "Enabling them does not change any result.",
 ["histories", "inputs"],
 "all sequences of allocate, grow, shrink and free of big integers of any size through the library's operations, including private keys, nonces and intermediate values",
 "No test inspects memory at the time it is released; an optimising compiler may silently drop the cleaning.",
 ["src/safememory.c", "include/ecc/safememory.h"],
 [("cleaning free and realloc", "src/safememory.c _safe_clean_free, _safe_clean_realloc")],
 ["contents of blocks at the moment of free"])

prop("M03", "Memory cleaning is in force from first use in Python, Go and the tools",
 "In every process that uses the Python extension, the Go package or one of the command-line tools, the memory-cleaning functions are in force without the caller asking for them: from the first use on, every block the big-number layer hands back to the system allocator is completely zero at that moment, so private keys, nonces, shared secrets and plaintexts do not stay behind in freed memory. "
 "No later call switches the cleaning off, and results are the same as without it.",
 ["histories", "inputs", "configurations"],
 "all Python and Go programs over fields, points, keys, signatures and encryption, and all runs of the command-line tools",
 "No test inspects freed memory; each binding enables the cleaning at a single place at start-up.",
 ["python/pyeccmodule.c", "ecgo/field.go", "examples/ecdh_gen.c", "examples/ecdsa_sign.c", "src/safememory.c"],
 [("start-up of the bindings", "python/pyeccmodule.c PyInit_ECC, ecgo/field.go init, main of the tools"), ("cleaning functions", "src/safememory.c")],
 ["contents of blocks at the moment of free"])

prop("T01", "Threads working on separate objects get the sequential results",
 "When several threads use the library at the same time on objects they do not share, each thread obtains exactly the results it would obtain alone, with no data race, crash or leak inside the library, including when several threads are the first to use a given field or the random source.",
 ["schedules", "programs"],
 "all thread counts, programs per thread and interleavings, in particular first use of the same new modulus and of the random source by several threads at once",
 "All tests are single-threaded.",
 ["src/field.c", "src/mpzurandom.c"],
 [("shared field list", "src/field.c _mpFp_field_lookup"), ("shared random source", "src/mpzurandom.c mpz_urandom")],
 ["per-thread results", "thread-sanitizer reports"],
 [("process-wide field list and random handle", "the only state shared between objects", "src/field.c, src/mpzurandom.c")])

prop("B01", "Every build configuration computes the same results",
 "The results of field, curve, point, encoding, signature and encryption operations do not depend on how the library is built: with memory cleaning enabled or disabled, at any optimisation level, with either compiler, with complete (Renes-Costello-Batina) or Jacobian addition formulas, with stack or heap temporaries, and with assertions compiled out, every operation on valid operands returns what the mathematical definition says and every import decision is the same.",
 ["configurations", "inputs"],
 "all combinations of configure options, compiler optimisation settings and header switches, with all inputs of the other arithmetic properties",
 "The tests run against one build only; code behind inactive switches is never executed.",
 ["src/ecpoint.c", "src/field.c", "src/ecurve.c", "src/ecdsa.c", "include/ecc/ecpoint.h", "configure.ac"],
 [("switched code", "src/ecpoint.c _MPECP_USE_RCB, _MPECP_MPFP_NOMALLOC; SAFE_CLEAN in field.c, ecurve.c, ecpoint.c")],
 ["returned values and statuses"])

prop("Y01", "Python field elements, curves and points compute the true results",
 "Every operator and method of the Python field-element, curve and point objects returns, for all operands it accepts (including plain integers of any size and sign on either side, and in-place forms), exactly the mathematically correct result as a new object, leaving the operands unchanged. "
 "Conversions to integers, bytes, text and representations give the exact value and can be read back.",
 ["inputs", "histories"],
 "all moduli and operand values, all operand type combinations, all curves and points, all expression sequences",
 "The Python tests evaluate a few expressions on one or two curves.",
 ["python/pyfield.c", "python/pycurve.c", "python/pypoint.c", "python/pygmplong.c"],
 [("integer conversion", "python/pygmplong.c"), ("operators", "python/pyfield.c, python/pypoint.c"), ("curve objects", "python/pycurve.c")],
 ["Python-level results compared with Python integers and a reference group"])

prop("Y02", "Python signatures and ElGamal interoperate exactly with the standard",
 "Through the Python interface, for every curve, key, message and hash the caller supplies, signatures verify exactly when the standard says so, serialised signatures and ciphertexts read back to equal objects, and decryption returns the encrypted point. "
 "Signatures made in Python verify with an independent implementation and vice versa.",
 ["inputs", "configurations"],
 "all curves, keys, messages (bytes or text), hash functions, tampered signatures, ciphertexts rebuilt from points",
 "The Python tests do one signature and one encryption round.",
 ["python/pyecdsa.c", "python/pyecelgamal.c"],
 [("signature scheme object", "python/pyecdsa.c"), ("ElGamal object", "python/pyecelgamal.c")],
 ["Python-level results"])

prop("Y03", "Python misuse raises an exception and never crashes the interpreter",
 "Any call of a constructor, method or operator of the Python interface with arguments of any type and value either returns a correct result or raises a Python exception; it never terminates or corrupts the interpreter, and leaves all existing objects usable and unchanged.",
 ["inputs", "histories"],
 "all argument tuples over wrong types, wrong counts, empty, huge, negative and boundary values, objects from different fields or curves, callbacks that raise or return wrong values",
 "The Python tests contain almost no negative cases.",
 ["python/pyfield.c", "python/pycurve.c", "python/pypoint.c", "python/pyecdsa.c", "python/pyecelgamal.c", "python/pygmplong.c"],
 [("argument checking and conversion", "python/*.c")],
 ["interpreter survival", "exception raised", "values of existing objects afterwards"])

prop("Y04", "Python objects stay valid whatever is destroyed first, and do not leak",
 "Whatever order Python objects (curves, points, schemes, signatures, ciphertexts, elements) are created, combined and garbage-collected in, every object still referenced keeps its correct value and stays usable. "
 "Repeating a history of creations and deletions does not grow memory without bound.",
 ["histories", "schedules"],
 "all creation/combination/deletion orders with garbage collection at any point",
 "Python tests keep everything alive until the end.",
 ["python/pypoint.c", "python/pyecdsa.c", "python/pyecelgamal.c", "python/pycurve.c", "python/pyfield.c"],
 [("references held on curves and schemes", "python/pypoint.c, python/pyecdsa.c, python/pyecelgamal.c")],
 ["values of surviving objects, address-sanitizer reports, live block counts"])

prop("O01", "Go field elements, curves and points compute the true results",
 "Every method of the Go field-element, curve and point types returns exactly the mathematically correct result for all big-integer and object arguments, following the receiver conventions of the standard big-number package, and never modifies an argument other than the receiver. "
 "Arguments that cannot be used (different fields or curves, values off the curve, unparsable text) are reported through the documented error, a nil result or a recoverable Go panic, and never abort the process.",
 ["inputs", "histories"],
 "all moduli, operand values of any sign and size, receiver/argument aliasing, curves and points, sequences of calls",
 "The Go tests evaluate a few identities with random values on one or two curves and never look at the arguments afterwards.",
 ["ecgo/field.go", "ecgo/curve.go", "ecgo/point.go"],
 [("integer conversion", "ecgo/field.go"), ("methods", "ecgo/field.go, ecgo/point.go"), ("curve objects", "ecgo/curve.go")],
 ["Go-level results and arguments after the call"])

prop("O02", "Go signatures and ElGamal agree with the standard",
 "Through the Go interface, for every curve, key and message, signatures verify exactly when the standard says so and satisfy the ECDSA equations, serialised signatures read back equal, and decryption of a ciphertext (fresh or rebuilt from its points) returns the encrypted point. "
 "Unusable arguments produce an error, a nil result or a recoverable Go panic, never a process abort.",
 ["inputs", "configurations"],
 "all curves, keys, messages, tampered signatures, plaintext points, equal but distinct curve objects",
 "The Go tests do one signature and one encryption round.",
 ["ecgo/ecdsa.go", "ecgo/ecelgamal.go"],
 [("signature scheme", "ecgo/ecdsa.go"), ("ElGamal", "ecgo/ecelgamal.go")],
 ["Go-level results"])

prop("O03", "Go objects stay valid under any garbage-collection schedule",
 "Whatever order Go objects become unreachable in and whenever the garbage collector runs, every object still reachable keeps its correct value and every call in progress completes correctly.",
 ["histories", "schedules"],
 "all creation/combination/drop orders with forced collections at any point, single- and multi-goroutine",
 "The Go tests rarely trigger a collection and keep the curves alive.",
 ["ecgo/curve.go", "ecgo/field.go", "ecgo/point.go", "ecgo/ecdsa.go", "ecgo/ecelgamal.go"],
 [("finalizers and references", "ecgo/*.go runtime.SetFinalizer")],
 ["values of surviving objects", "sanitizer reports"])

prop("X01", "Command-line encryption tools round-trip every key and message",
 "For every built-in curve, keys generated by the example tools, their public keys, and any message or public-key plaintext: decrypting what the encryption tool produced with the matching private key returns exactly the original bytes (or point), and files written by one tool are accepted by the others. "
 "The key file holds a private scalar between 1 and the group order minus 1 and the exact curve parameters, the public-key file the exact multiple of the generator, and a message encrypted elsewhere in the documented format (XSalsa20 under the SHA-256 hash of the compressed shared point, ElGamal C = kG, D = kQ + M) is decrypted too. Repeated encryptions of one message share neither ephemeral key, nonce nor ciphertext, another key does not decrypt, and a tool whose output cannot be written reports failure.",
 ["inputs", "configurations"],
 "all built-in curves, all key values, all message contents and sizes (one byte to several read blocks, binary data), input by file or standard input",
 "The example programs have no tests.",
 ["examples/ecdh_gen.c", "examples/ecdh_pub.c", "examples/ecdh_enc.c", "examples/ecdh_dec.c", "examples/ecelgamal_enc.c", "examples/ecelgamal_dec.c", "examples/ecdh_der.c", "examples/elgamal_der.c", "examples/b64file.c"],
 [("DER encoding of keys and messages", "examples/ecdh_der.c, examples/elgamal_der.c"), ("PEM-like wrapping", "examples/b64file.c")],
 ["tool exit status, output files, decrypted bytes"])

prop("X02", "The command-line verifier outputs a message only if it is authentic",
 "A message signed by the signing tool is output unchanged, with success status, by the verifying tool given the matching public key. "
 "For any other combination of message, signature and public key the verifying tool succeeds, with exactly the message as its output, if and only if standard ECDSA with SHA-512 accepts the decoded contents; otherwise, or when a block is missing, it fails and outputs nothing.",
 ["inputs"],
 "all built-in curves, keys, message contents and sizes, and all alterations of message, signature or key",
 "The example programs have no tests.",
 ["examples/ecdsa_sign.c", "examples/ecdsa_verify.c", "examples/ecdh_der.c", "examples/b64file.c"],
 [("signature verification before output", "examples/ecdsa_verify.c")],
 ["exit status and standard output"])

prop("X03", "Command-line tools reject malformed files cleanly",
 "Given any malformed, truncated or hostile key, message, signature or ciphertext file, each example tool exits with an error status and message; it never crashes, hangs, reads or writes out of bounds, or reports success with output derived from an unusable key.",
 ["inputs"],
 "all byte-level and structure-level mutations of valid files (wrapping, base64, DER structure, lengths, curve parameters, point encodings), empty files, missing parts",
 "The example programs have no tests.",
 ["examples/ecdh_der.c", "examples/elgamal_der.c", "examples/b64file.c", "examples/ecdh_pub.c", "examples/ecdh_enc.c", "examples/ecdh_dec.c", "examples/ecdsa_sign.c", "examples/ecdsa_verify.c", "examples/ecelgamal_enc.c", "examples/ecelgamal_dec.c"],
 [("DER import", "examples/ecdh_der.c, examples/elgamal_der.c"), ("wrapping parser", "examples/b64file.c")],
 ["exit status, sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
