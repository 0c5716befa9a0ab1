#!/usr/bin/env python3
"""Writes tools/levels.json (technique and notes per property, used by mkmanifest.py)."""
import json, os
T = {
 'F01': 'model-based random testing of operation histories against integer arithmetic (ASan+UBSan and plain builds)',
 'F02': 'property-based testing: results multiplied back, existence by Euler criterion; exhaustive for primes below 64',
 'C01': 'property-based testing against the curve equation and an independent parameter validator',
 'C02': 'generated curve families with single-parameter differences; independent validation of all built-in tables',
 'P01': 'model-based random testing of point histories against an affine reference group; complete addition tables of toy curves',
 'P02': 'property-based testing against repeated addition; all scalars of toy curves',
 'P03': 'stateful model-based testing of table histories against repeated addition',
 'P04': 'stateful model-based testing with all live objects re-read and compared',
 'E01': 'property-based testing against an independent encoder, byte for byte',
 'E02': 'structured fuzzing of encodings against an independent strict decoder; exhaustive on one-byte curves',
 'S01': 'property-based testing: every produced signature checked with a textbook verifier and for round trip',
 'S02': 'differential testing of verification verdicts against a textbook verifier on constructed and altered triples',
 'S03': 'round-trip testing and structured fuzzing of signature encodings against a reference rule',
 'S04': 'nonce recovery plus statistical tests over generated histories (significance z >= 7)',
 'G01': 'property-based round-trip testing plus ElGamal equations in the reference group',
 'R01': 'statistical property testing over generated bounds and destinations (significance z >= 7), exhaustive counting on small sources',
 'R02': 'generated fork programs; all values of all processes compared',
 'R03': 'statistical property testing of generated draws through Python, Go and the tools, with fork trees and concurrent goroutines (significance z >= 7)',
 'M01': 'stateful fuzzing of API histories under ASan, UBSan, valgrind memcheck and repeat-and-count allocation measurement',
 'M02': 'generated histories with an intercepted allocator: every byte of every freed block inspected',
 'M03': 'generated Python and Go programs and tool runs in processes with an intercepted allocator: every byte of every freed big-number block inspected',
 'T01': 'generated concurrent programs under ThreadSanitizer and against the sequential model',
 'B01': 'model-based testing of differently configured and compiled builds against the reference of the other checks',
 'Y01': 'model-based random testing of the Python extension against Python integers and the reference group',
 'Y02': 'differential testing of the Python extension against a textbook ECDSA/ElGamal implementation',
 'Y03': 'fuzzing of Python calls with generated junk and hostile objects; process survival and state invariants',
 'Y04': 'stateful testing of Python object lifetimes under ASan/overwritten freed memory; growth measurement of repeated histories',
 'O01': 'model-based random testing of the Go package against Python integers and the reference group',
 'O02': 'differential testing of the Go package against a textbook ECDSA/ElGamal implementation',
 'O03': 'stateful testing of Go object lifetimes with forced and concurrent garbage collection under ASan/overwritten freed memory',
 'X01': 'generated tool chains against independent parsing, encryption and decryption',
 'X02': 'differential testing of the verifying tool against textbook ECDSA over constructed and altered files',
 'X03': 'structure-aware fuzzing of tool input files under ASan with an accept/refuse oracle',
}
N = {
 'S04': 'Statistical: a bias below about 7 standard deviations of the stated sample sizes is not seen; the random device is trusted.',
 'R03': 'Statistical: a bias below about 7 standard deviations of the stated sample sizes is not seen; the random device is trusted.',
 'R01': 'Statistical: a bias below about 7 standard deviations of the stated sample sizes is not seen; the random device is trusted.',
 'T01': 'Schedules are those the operating system produces after a barrier; ThreadSanitizer reports unordered accesses in what was executed.',
 'O03': 'Collections are forced and concurrent, not enumerated; a missing keep-alive with a very short window may need the thorough tier.',
 'M01': 'Memory errors are those AddressSanitizer, UBSan and memcheck recognise in the executed histories; allocation failure is not injected.',
}
D = 'Generated-input search; no violation in the explored cases, not a proof. Trusts the Python reference, GMP and the compilers.'
out = {k: {'technique': v, 'level': 'exploration', 'note': (N[k] + ' ' + D) if k in N else D} for k, v in T.items()}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.json'), 'w'), indent=1, sort_keys=True)
