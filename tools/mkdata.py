#!/usr/bin/env python3
"""One-off generator of lib/big_primes.json (primes at interesting sizes)."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ref
rng = random.Random(20240607)
def prime_bits(b):
    while True:
        q = rng.getrandbits(b) | (1 << (b - 1)) | 1
        if ref.is_prime(q): return q
ss = []
for b in [12, 16, 20, 31, 32, 33, 48, 61, 63, 64, 65, 66, 71, 72, 96, 127, 128, 129, 136, 160, 191, 192, 193, 255, 256, 257, 320, 384, 512, 521, 640, 768, 1023, 1024]:
    got = 0
    while got < (3 if b < 300 else 1):
        # p + 1 = h*n, p = 3 mod 4, h a multiple of 4
        hb = rng.choice([3, 3, 4, 5, 9]) if b > 20 else 3
        n = prime_bits(b - hb)
        for h in range(4, 4096, 4):
            p = h * n - 1
            if p.bit_length() == b and ref.is_prime(p):
                ss.append((hex(p), hex(n))); got += 1
                break
field = set()
for b in list(range(2, 20)) + [31, 32, 33, 61, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 255, 256, 257, 319, 320, 383, 384, 385, 447, 448, 511, 512, 513, 521, 640, 767, 768, 769, 896, 959, 960, 961, 1023, 1024]:
    for kind in ('rand', 'low', 'high'):
        if kind == 'rand':
            q = 1
            while not ref.is_prime(q): q = rng.getrandbits(b) | (1 << (b - 1)) | 1
        elif kind == 'low':      # just above 2^(b-1)
            q = (1 << (b - 1)) + 1
            while not ref.is_prime(q): q += 2
            if q.bit_length() != b: continue
        else:                    # just below 2^b
            q = (1 << b) - 1
            while not ref.is_prime(q): q -= 2
        if q > 2: field.add(q)
hi = []
for s in (2, 3, 5, 8, 16, 20, 31, 32, 33, 40, 47, 56, 60):
    for extra in (14, 40, 150):
        while True:
            q = (rng.getrandbits(extra) | 1) * (1 << s) + 1
            if ref.is_prime(q): hi.append(q); break
hi += [ (1<<224) - (1<<96) + 1, 0xffffffff00000001, 65537, 257, 17, 97, 193, 7681, 12289]
json.dump({'supersingular': ss, 'field': [hex(x) for x in sorted(field)], 'high2adic': [hex(x) for x in hi]},
          open(os.path.join(ref.HERE, 'big_primes.json'), 'w'), indent=0)
print(len(ss), len(field), len(hi))
