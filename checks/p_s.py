"""S01-S03: ECDSA; G01: ElGamal."""
import random

import ref
from core import CCheck, Violation, Skip, ok
from pmodel import Pool, pick_point, small_points, jp, curve_cmd, hx, hb
from ref import Curve
import hashlib

HSIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 25, 27, 28, 29, 30, 31, 32, 33, 40, 47, 48, 49, 52, 56, 57, 63, 64,
          65, 66, 67, 72, 96, 128, 132, 200]


def digest(hs, m):
    if hs == 'sha256':
        return hashlib.sha256(m).digest()
    if hs == 'sha512':
        return hashlib.sha512(m).digest()
    z = int(hs)
    return (m[:z] + bytes(z))[:z]


def pick_hashname(c, rng):
    nb = (c.n.bit_length() + 7) // 8
    r = rng.random()
    if r < 0.2:
        return rng.choice(['sha256', 'sha512'])
    if r < 0.7:
        near = [z for z in HSIZES if abs(z - nb) <= 2]
        if near:
            return str(rng.choice(near))
    return str(rng.choice(HSIZES))


def pick_msg(c, hs, rng):
    r = rng.random()
    if hs.startswith('sha'):
        return bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 500, rng.randrange(1, 3000)])))
    z = int(hs)
    if r < 0.35:       # digests at the edges of the order
        nb = c.n.bit_length()
        v = rng.choice([0, 1, c.n, c.n - 1, c.n + 1, 2 * c.n, (1 << nb) - 1, 1 << (nb - 1), c.n << 1, c.n >> 1])
        sh = rng.choice([0, z * 8 - nb, z * 8 - nb, z * 8 - nb - 1, z * 8 - nb + 1])
        v = v << sh if sh > 0 else v
        v &= (1 << (8 * z)) - 1
        if rng.random() < 0.3 and sh > 0:
            v |= rng.getrandbits(sh) & ((1 << (8 * z)) - 1)
        return v.to_bytes(z, 'big')
    if r < 0.5:
        return bytes([rng.choice([0, 255, 1, 128])]) * z
    n = z if r < 0.85 else rng.choice([1, max(1, z - 1), z + 1, z + 40])
    return bytes(rng.getrandbits(8) for _ in range(n))


def pick_key(c, rng):
    r = rng.random()
    if r < 0.3:
        d = rng.choice([1, 2, 3, c.n - 1, c.n - 2, (c.n + 1) // 2, 1 << rng.randrange(c.n.bit_length())])
        return d % c.n or 1
    if r < 0.4:
        return rng.randrange(1, min(c.n, 256))
    return rng.randrange(1, c.n)


def valid_nonces(c, d, e):
    """all k for which a signature exists (toy curves only)"""
    out = {}
    for k in range(1, c.n):
        R = c.mul_int(c.G, k)
        r = 0 if R is None else R[0] % c.n
        s = ref.inv(k, c.n) * (e + r * d) % c.n
        if r and s:
            out[k] = (r, s)
    return out


def pub_lines(c, slot, d, how, rng_k, cs=0, tmp=50):
    """Commands that leave d*G in the slot, in several representations."""
    Q = c.mul(c.G, d)
    if how == 'mul':
        return ['psetz %d %x %x %d' % (slot, c.G[0], c.G[1], cs), 'pmulz %d %d %x' % (slot, slot, d)]
    if how == 'proj':       # (d-k)G + kG
        return ['psetz %d %x %x %d' % (slot, c.G[0], c.G[1], cs), 'pmulz %d %d %x' % (tmp, slot, (d - rng_k) % c.n),
                'pmulz %d %d %x' % (slot, slot, rng_k), 'padd %d %d %d' % (slot, slot, tmp)]
    if Q is None:
        return ['pneu %d %d' % (slot, cs)]
    if how == 'comp':
        return ['pbytes %d %s %d' % (slot, c.encode(Q, True).hex(), cs)]
    if how == 'tab':
        return ['psetz %d %x %x %d' % (slot, Q[0], Q[1], cs), 'pbset %d' % slot]
    return ['psetz %d %x %x %d' % (slot, Q[0], Q[1], cs)]


class Base(CCheck):
    def worker_init(self, env):
        super().worker_init(env)
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'], ntoy=40)


class S01(Base):
    pid = 'S01'
    rule = ('a case is a curve of any form (toy, supersingular up to 1024 bits, built-in), a hash (identity of 1..200 bytes, SHA-256, '
            'SHA-512), a private key (edges and random) and 1-4 messages (1..3000 bytes, digests 0, n, n+-1, all ones, ...), signed through '
            'one scheme; each (r, s) must lie in [1, n-1] and satisfy the textbook verification equation for the reference digest '
            'integer, verify directly with the public key in several representations, survive export/import as bytes and text and verify '
            'again, leave the private key unchanged; toy keys for which no signature exists are excluded; non-trivial: at least one '
            'signature checked')
    cases = {'quick': 4000, 'thorough': 90000}
    budget = {'quick': 150, 'thorough': 2400}
    assumptions = ['the generator has prime order n', 'on toy curves a (key, digest) pair that admits no signature is not signed']
    restart_every = 300
    wt = (0.35, 0.2)

    def gen(self, rng, env):
        c = env['pool'].pick(rng, *self.wt)
        hs = pick_hashname(c, rng)
        d = pick_key(c, rng)
        ms = []
        for _ in range(rng.randrange(1, 5)):
            ms.append(pick_msg(c, hs, rng).hex())
        if rng.random() < 0.3:
            ms.append(ms[0])
        return {'curve': c.to_json(), 'hash': hs, 'd': d, 'msgs': ms, 'pub': rng.choice(['aff', 'mul', 'proj', 'comp', 'tab']), 'k': rng.randrange(c.n)}

    def fixed_cases(self, tier, env):
        rng = random.Random(81)
        out = []
        for c in ref.NAMED.values():
            for hs in ('sha256', 'sha512', '200'):
                out.append({'curve': c.name, 'hash': hs, 'd': pick_key(c, rng), 'msgs': [pick_msg(c, hs, rng).hex(), '61'],
                            'pub': 'mul', 'k': 5})
        return out

    def run(self, case, env):
        c = Curve.from_json(case['curve'])
        d, hs = case['d'], case['hash']
        if not 1 <= d < c.n:
            raise Skip('d')
        msgs = [bytes.fromhex(m) for m in case['msgs']]
        toy = c.n < 5000
        if toy:
            msgs = [m for m in msgs if m and len(valid_nonces(c, d, ref.hash_to_int(digest(hs, m), c.n) % c.n)) > c.n // 20]
        msgs = [m for m in msgs if m]
        if not msgs:
            raise Skip('no message')
        Q = c.mul(c.G, d)
        lines = ['reset', curve_cmd(0, c), curve_cmd(1, c), 'hnew 0 0 %s' % hs, 'finit 0 %x' % c.n, 'fsetz 0 %x %x' % (d, c.n)]
        cs = 1 if case['k'] & 1 else 0
        lines += ['pinit 0 %d' % cs, 'pinit 50 %d' % cs] + pub_lines(c, 0, d, case['pub'], case['k'], cs)
        at = []
        for i, m in enumerate(msgs):
            lines += ['sign %d 0 0 %s' % (i, m.hex()), 'sver %d 0 %s' % (i, m.hex()), 'sexpb %d' % i, 'sexps %d' % i]
            at.append(len(lines) - 4)
        lines += ['fget 0', 'pout 0 0']
        rep = env['drv'].batch(lines)
        if ok(rep[-2]) != [hx(d), hx(c.n)]:
            raise Violation('the private key changed while signing: %s' % rep[-2])
        if ok(rep[-1])[0] != c.encode(Q, False).hex():
            raise Violation('the public key changed while verifying: %s' % rep[-1])
        L = (c.n.bit_length() + 7) // 8
        second, chk = ['hnew 1 %d %s' % (1 - cs, hs)], []
        for i, m in enumerate(msgs):
            g = ok(rep[at[i]])
            if g[0] != '0':
                raise Violation('%s d=%x hash=%s: signing %s failed' % (case['curve'], d, hs, m.hex()))
            r, s = int(g[1], 16), int(g[2], 16)
            if not (1 <= r < c.n and 1 <= s < c.n):
                raise Violation('%s d=%x hash=%s: signature of %s has r=%x s=%x outside [1, n-1]' % (case['curve'], d, hs, m.hex(), r, s))
            if not ref.ecdsa_verify(c, Q, digest(hs, m), r, s):
                raise Violation('%s d=%x hash=%s: signature r=%x s=%x of %s does not satisfy the ECDSA equation' % (
                    case['curve'], d, hs, r, s, m.hex()))
            if ok(rep[at[i] + 1])[0] != '0':
                raise Violation('%s d=%x hash=%s: own signature r=%x s=%x of %s does not verify' % (case['curve'], d, hs, r, s, m.hex()))
            b = r.to_bytes(L, 'big') + s.to_bytes(L, 'big')
            if ok(rep[at[i] + 2])[0] != b.hex() or ok(rep[at[i] + 3])[0] != b.hex().upper():
                raise Violation('%s: export of r=%x s=%x gives %s / %s' % (case['curve'], r, s, rep[at[i] + 2], rep[at[i] + 3]))
            second += ['simpb %d 1 %s' % (20 + i, b.hex()), 'sver %d 0 %s' % (20 + i, m.hex()),
                       'simps %d 1 %s' % (40 + i, b.hex().upper().encode().hex()), 'sver %d 0 %s' % (40 + i, m.hex())]
        rep = env['drv'].batch(second)
        for l, r in zip(second, rep):
            if ok(r)[0] != '0':
                raise Violation('%s d=%x hash=%s: after export and import: %s -> %s' % (case['curve'], d, hs, l, r))
        return {'signatures': len(msgs), 'curve_%s' % ('toy' if toy else 'big'): 1, 'kind_' + c.kind: 1}

    def shrinks(self, case):
        for i in range(len(case['msgs'])):
            yield dict(case, msgs=case['msgs'][:i] + case['msgs'][i + 1:])
        for v in (1, 2, case['d'] // 2, case['d'] >> 8):
            if 0 < v < case['d']:
                yield dict(case, d=v)


# ---------------------------------------------------------------- S02
class S02(Base):
    pid = 'S02'
    rule = ('a case is a curve, hash, public key (aff/projective/compressed/tabled; on the same or an equal separate curve object) and 6-16 '
            '(signature, message, key) triples built by an independent signer with chosen nonces and then altered: s -> n-s, r/s +-1, bit '
            'flips, swapped, zero, values making the verification point neutral, digest bits changed inside and outside the truncation, other or '
            'negated key, key on another curve, empty or absent message, digests longer and shorter than the order; the verdict must equal '
            'textbook ECDSA verification; on small toy curves all (r, s) of a key and digest are enumerated; non-trivial: at least one accepted and '
            'one rejected triple')
    cases = {'quick': 4000, 'thorough': 90000}
    budget = {'quick': 150, 'thorough': 2400}
    assumptions = ['verification of a key that is the neutral element or outside the generator\'s group is not judged',
                   'collisions of the verification equation on toy curves are decided by the reference, not assumed away']
    restart_every = 300

    def fixed_cases(self, tier, env):
        rng = random.Random(82)
        out = []
        for kind in ('ws', 'mo', 'ed', 'te'):
            k = 0
            while k < (5 if tier == 'quick' else 24):
                c = ref.toy_curve(rng, kind, pmax=47)
                if c.n < 32:
                    for _ in range(2):
                        hs = rng.choice(['1', '2', '4'])
                        out.append({'table': c.to_json(), 'hash': hs, 'd': pick_key(c, rng), 'msg': pick_msg(c, hs, rng).hex()})
                    k += 1
        return out

    def gen(self, rng, env):
        c = env['pool'].pick(rng, 0.35, 0.2)
        hs = pick_hashname(c, rng)
        d = pick_key(c, rng)
        items = []
        sha = hs.startswith('sha')
        z = 0 if sha else int(hs)
        for _ in range(rng.randrange(6, 17)):
            m = pick_msg(c, hs, rng)
            h = digest(hs, m)
            e = ref.hash_to_int(h, c.n)
            sg = None
            for _ in range(20):
                k = rng.choice([1, 2, c.n - 1, rng.randrange(1, c.n), rng.randrange(1, c.n)])
                sg = ref.ecdsa_sign(c, d, h, k)
                if sg:
                    break
            r, s = sg or (rng.randrange(1, c.n), rng.randrange(1, c.n))
            via, key = 'mk', 'Q'
            t = rng.random()
            if t < 0.2:
                via = rng.choice(['mk', 'b', 't'])
            elif t < 0.27:
                s = c.n - s
            elif t < 0.37:
                u = rng.choice(['r', 's'])
                dl = rng.choice([1, -1, 1 << rng.randrange(c.n.bit_length()), rng.randrange(c.n)])
                if u == 'r':
                    r = (r + dl) % c.n
                else:
                    s = (s + dl) % c.n
            elif t < 0.42:
                r, s = s, r
            elif t < 0.48:
                r, s = rng.choice([(0, s), (r, 0), (0, 0)])
            elif t < 0.55 and d:
                r = -e * ref.inv(d, c.n) % c.n       # u1*G + u2*Q is neutral
                s = rng.randrange(1, c.n)
            elif t < 0.72:                            # change the digest
                hb_ = bytearray(h)
                if sha:
                    m = bytes([m[0] ^ 1]) + m[1:] if rng.random() < 0.5 else m + b'\0'
                else:
                    nb = c.n.bit_length()
                    bit = rng.choice([rng.randrange(8 * z), 8 * z - 1, 0, min(nb, 8 * z) - 1, min(nb, 8 * z - 1), max(0, nb - 9)]) % (8 * z)
                    hb_[bit // 8] ^= 0x80 >> (bit % 8)
                    m = bytes(hb_)
            elif t < 0.8:
                key = 'neg'
            elif t < 0.86:
                key = 'other'
            elif t < 0.9:
                key = 'othercurve'
            elif t < 0.93:
                key = 'lo'
            elif t < 0.96:
                m = rng.choice([b'', None])
            else:
                r, s = rng.randrange(1, c.n), rng.randrange(1, c.n)
            items.append([via, r, s, m.hex() if m is not None else None, key])
        return {'curve': c.to_json(), 'oc': env['pool'].pick(rng).to_json(), 'hash': hs, 'd': d, 'd2': pick_key(c, rng),
                'pub': rng.choice(['aff', 'mul', 'proj', 'comp', 'tab']), 'k': rng.randrange(c.n), 'items': items}

    def run(self, case, env):
        if 'table' in case:
            return self.run_table(case, env)
        c, oc = Curve.from_json(case['curve']), Curve.from_json(case['oc'])
        d, d2, hs = case['d'], case['d2'], case['hash']
        if not (1 <= d < c.n and 1 <= d2 < c.n):
            raise Skip('d')
        L = (c.n.bit_length() + 7) // 8
        lines = ['reset', curve_cmd(0, c), curve_cmd(1, c), curve_cmd(2, oc), 'hnew 0 0 %s' % hs]
        cs = case['k'] & 1
        lines += ['pinit %d %d' % (i, cs) for i in (0, 1, 2, 4, 50)] + ['pinit 3 2', 'psetz 3 %x %x 2' % oc.G]
        lines += pub_lines(c, 0, d, case['pub'], case['k'], cs)
        lines += pub_lines(c, 1, d2, 'aff', 1, cs) + pub_lines(c, 2, c.n - d, 'mul', 1, cs)
        lo = [q for q in small_points(c, random.Random(case['k'])) if q is not None and q != c.O]
        lo = lo[0] if lo else c.G
        lines.append('psetz 4 %x %x %d' % (lo[0], lo[1], cs))
        keys = {'Q': (0, c.mul(c.G, d)), 'other': (1, c.mul(c.G, d2)), 'neg': (2, c.mul(c.G, c.n - d)), 'othercurve': (3, None), 'lo': (4, lo)}
        at = []
        for via, r, s, m, key in case['items']:
            b = r.to_bytes(L, 'big') + s.to_bytes(L, 'big')
            if via == 'mk' or not (r and s):
                lines.append('smk 0 0 %x %x' % (r, s))
            elif via == 'b':
                lines.append('simpb 0 0 %s' % b.hex())
            else:
                lines.append('simps 0 0 %s' % b.hex().encode().hex())
            lines += ['sver 0 %d %s' % (keys[key][0], '-' if m is None else m or '.'), 'sclr 0']
            at.append(len(lines) - 2)
        lines += ['pout 0 0']
        rep = env['drv'].batch(lines)
        tags = {}
        samec = c.params()[:8] == oc.params()[:8]
        for i, (via, r, s, m, key) in zip(at, case['items']):
            got = ok(rep[i])[0] == '0'
            Q = keys[key][1]
            if m is None or m == '':
                want = False
                tags['empty_message'] = 1
            elif key == 'othercurve':
                if samec:
                    continue
                want = False
                tags['other_curve_key'] = 1
            elif key == 'lo' and c.mul_int(Q, c.n) != c.O:
                continue
            else:
                want = ref.ecdsa_verify(c, Q, digest(hs, bytes.fromhex(m)), r, s)
            tags['accept' if want else 'reject'] = tags.get('accept' if want else 'reject', 0) + 1
            if got != want:
                raise Violation('%s hash=%s key=%s r=%x s=%x message=%s: verification says %s, the standard says %s' % (
                    case['curve'], hs, '%s (d=%x)' % (key, d), r, s, m, got, want))
        if ok(rep[-1])[0] != c.encode(c.mul(c.G, d), False).hex():
            raise Violation('the public key changed while verifying: %s' % rep[-1])
        return tags

    def run_table(self, case, env):
        c = Curve.from_json(case['table'])
        d, hs, m = case['d'], case['hash'], bytes.fromhex(case['msg'])
        Q = c.mul(c.G, d)
        lines = ['reset', curve_cmd(0, c), 'hnew 0 0 %s' % hs, 'pinit 0 0'] + pub_lines(c, 0, d, 'aff', 1)
        base = len(lines)
        for r in range(c.n):
            for s in range(c.n):
                lines += ['smk 0 0 %x %x' % (r, s), 'sver 0 0 %s' % m.hex(), 'sclr 0']
        rep = env['drv'].batch(lines, timeout=60)
        i = base + 1
        tags = {'accept': 0, 'reject': 0}
        for r in range(c.n):
            for s in range(c.n):
                want = ref.ecdsa_verify(c, Q, digest(hs, m), r, s)
                got = ok(rep[i])[0] == '0'
                tags['accept' if want else 'reject'] += 1
                if got != want:
                    raise Violation('%s hash=%s d=%d r=%d s=%d message=%s: verification says %s, the standard says %s' % (
                        case['table'], hs, d, r, s, m.hex(), got, want))
                i += 3
        tags['table_entries'] = c.n * c.n
        return tags

    def nontrivial(self, case, tags):
        return tags.get('accept', 0) and tags.get('reject', 0)

    def shrinks(self, case):
        if 'items' in case:
            for i in range(len(case['items'])):
                yield dict(case, items=case['items'][:i] + case['items'][i + 1:])


# ---------------------------------------------------------------- S03
BADCH = [' ', '\n', '\t', '-', '+', 'x', 'g', 'G', '/', ':', '@', '`', '\x7f', '\x80', '\xff', '.', 'Z', '_', '\x01']


class S03(Base):
    pid = 'S03'
    rule = ('a case is a curve, 2-6 signatures (r, s random, 1, n-1, with leading zero bytes) built in place and exported/imported as bytes '
            'and text, and 20-50 imports of altered encodings: r or s equal to 0, n, n+1, all ones or larger than n, wrong lengths, other curve\'s '
            'length, non-hexadecimal characters, blanks, signs, prefixes, lower and mixed case; exports are compared byte for byte, import '
            'verdicts with the rule, values read back; buffers are exact-size under AddressSanitizer; non-trivial: at least one accepted '
            'and one rejected import')
    cases = {'quick': 5000, 'thorough': 150000}
    budget = {'quick': 120, 'thorough': 1800}

    def gen(self, rng, env):
        c = env['pool'].pick(rng, 0.4, 0.25)
        n = c.n
        L = (n.bit_length() + 7) // 8

        def scalar():
            r = rng.random()
            if r < 0.25:
                return rng.choice([1, 2, n - 1, n - 2, n // 2])
            if r < 0.5:
                return rng.randrange(1, min(n, 1 << (8 * rng.randrange(0, L) + rng.randrange(1, 9))))
            return rng.randrange(1, n)
        vals = [[scalar(), scalar()] for _ in range(rng.randrange(2, 7))]
        imps = []
        top = (1 << 8 * L) - 1
        for _ in range(rng.randrange(20, 50)):
            r, s = scalar(), scalar()
            t = rng.random()
            if t < 0.35:
                pass
            elif t < 0.6:
                v = min(top, rng.choice([0, 0, n, n, n + 1, top, n + rng.randrange(n), rng.randrange(n, top + 1), 1 << (n.bit_length() % (8 * L))]))
                if rng.random() < 0.5:
                    r = v
                else:
                    s = v
                if rng.random() < 0.2:
                    r = s = v
            b = r.to_bytes(L, 'big') + s.to_bytes(L, 'big')
            if 0.6 < t < 0.8:
                b = rng.choice([b[:-1], b + b'\0', b[:L], b'', b[1:], b'\0' + b, b + b, b[:L] + b'\0' + b[L:], b[:rng.randrange(len(b))],
                                r.to_bytes(L + 1, 'big') + s.to_bytes(L + 1, 'big'), b[:2 * L - 2], b'\0' * L * 2])
            if rng.random() < 0.5:
                imps.append(['b', b.hex()])
            else:
                x = b.hex()
                x = rng.choice([x, x.upper(), ''.join(rng.choice([q, q.upper()]) for q in x)])
                if rng.random() < 0.4 and x:
                    i = rng.choice([0, len(x) - 1, rng.randrange(len(x)), len(x) // 2])
                    x = rng.choice([x[:i] + rng.choice(BADCH) + x[i + 1:], x[:i] + rng.choice(BADCH) + x[i:], '0x' + x, '0x' + x[2:], ' ' + x[1:], x[:-1],
                                    x + '0', x + ' ', '-' + x[1:], '+' + x[1:], x[:len(x) // 2] + '-' + x[len(x) // 2 + 1:], x + '\n',
                                    x[:len(x) // 2] + '0x' + x[len(x) // 2 + 2:], x[:-1] + ' '])
                imps.append(['t', x])
        return {'curve': c.to_json(), 'hash': pick_hashname(c, rng), 'vals': vals, 'imps': imps}

    def run(self, case, env):
        c = Curve.from_json(case['curve'])
        n = c.n
        L = (n.bit_length() + 7) // 8
        lines = ['reset', curve_cmd(0, c), 'hnew 0 0 %s' % case['hash']]
        want = {}
        for r, s in case['vals']:
            b = r.to_bytes(L, 'big') + s.to_bytes(L, 'big')
            g = ['0', hx(r), hx(s)]
            for l, w in (('smk 0 0 %x %x' % (r, s), None), ('sexpb 0', [b.hex()]), ('sexps 0', [b.hex().upper()]), ('sclr 0', None),
                         ('simpb 0 0 %s' % b.hex(), g), ('sexps 0', [b.hex().upper()]), ('sclr 0', None),
                         ('simps 0 0 %s' % b.hex().upper().encode().hex(), g), ('sexpb 0', [b.hex()]), ('sclr 0', None)):
                if w:
                    want[len(lines)] = w
                lines.append(l)
        tags = {'accept': 0, 'reject': 0}
        for kind, x in case['imps']:
            b = None
            if kind == 'b':
                b = bytes.fromhex(x)
                lines.append('simpb 1 0 %s' % (x or '.'))
            else:
                if '\0' in x:
                    raise Skip('nul')
                if len(x) % 2 == 0 and all(q in '0123456789abcdefABCDEF' for q in x):
                    b = bytes.fromhex(x)
                lines.append('simps 1 0 %s' % (x.encode('latin1').hex() or '.'))
            w = ['1']
            if b is not None and len(b) == 2 * L:
                r, s = int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big')
                if 0 < r < n and 0 < s < n:
                    w = ['0', hx(r), hx(s)]
            want[len(lines) - 1] = w
            tags['accept' if w[0] == '0' else 'reject'] += 1
            if w[0] == '0':
                want[len(lines)] = [b.hex()]
                lines += ['sexpb 1', 'sclr 1']
        # a successful import is released above; make sure an unexpected one does not block the next
        rep = env['drv'].batch(lines)
        for i in sorted(want):
            r = rep[i]
            if r.startswith('BAD'):
                raise Skip(r)
            if ok(r) != want[i]:
                raise Violation('%s: %s answered %s, expected %s' % (case['curve'], lines[i], r, ' '.join(want[i])))
        return tags

    def nontrivial(self, case, tags):
        return tags.get('accept', 0) and tags.get('reject', 0)

    def shrinks(self, case):
        for k in ('imps', 'vals'):
            n = len(case[k])
            s = n // 2
            while s:
                for i in range(0, n, s):
                    yield dict(case, **{k: case[k][:i] + case[k][i + s:]})
                s //= 2


# ---------------------------------------------------------------- G01
class G01(Base):
    pid = 'G01'
    rule = ('a case is a curve of any form, a private key and 1-5 plaintext points (random, neutral, generator, the public key, its negative, '
            'low order, on an equal but separate curve object), encrypted and decrypted with the key in several representations and '
            'possibly into re-assembled ciphertexts whose C and D live on separate equal curves; the plaintext must come back exactly, C and D must be '
            'curve points with C = kG and D - M = kQ for one k in [1, n-1] (k found exhaustively on toy curves, otherwise '
            'dC = D - M), the inputs stay unchanged; operands on other curves or a key of another order must be refused; non-trivial: at '
            'least one round trip')
    cases = {'quick': 4500, 'thorough': 120000}
    budget = {'quick': 150, 'thorough': 2400}
    restart_every = 300

    def gen(self, rng, env):
        c = env['pool'].pick(rng, 0.5, 0.2)
        d = pick_key(c, rng) if rng.random() < 0.97 else 0
        Q = c.mul(c.G, d)
        ms = []
        for _ in range(rng.randrange(1, 6)):
            M = rng.choice([Q, c.neg(Q), c.O, c.G]) if rng.random() < 0.35 else pick_point(c, rng)
            ms.append([jp(M), rng.choice([0, 0, 2]), rng.choice([0, 1, 1])])
        return {'curve': c.to_json(), 'oc': env['pool'].pick(rng).to_json(), 'd': d, 'pub': rng.choice(['aff', 'mul', 'proj', 'comp', 'tab']),
                'k': rng.randrange(c.n), 'ms': ms}

    def run(self, case, env):
        c, oc = Curve.from_json(case['curve']), Curve.from_json(case['oc'])
        d = case['d'] % c.n
        Q = c.mul(c.G, d)
        lines = ['reset', curve_cmd(0, c), curve_cmd(1, oc), curve_cmd(2, c), 'finit 0 %x' % c.n, 'fsetz 0 %x %x' % (d, c.n),
                 'finit 1 %x' % oc.n, 'fsetz 1 5 %x' % oc.n]
        lines += ['pinit 0 0', 'pinit 50 0'] + pub_lines(c, 0, d, case['pub'], case['k'])
        lines += ['pinit 9 1', 'psetz 9 %x %x 1' % oc.G]
        samec = c.params()[:8] == oc.params()[:8]
        want = {}
        get = []
        for i, (M, cs, proj) in enumerate(case['ms']):
            M = None if M is None else (M[0], M[1])
            if (M is None and c.O is not None) or (M is not None and not c.on(*M)):
                raise Skip('M')
            a = 10 + i
            lines.append('pinit %d %d' % (a, cs))
            lines.append('pneu %d %d' % (a, cs) if M is None else 'psetz %d %x %x %d' % (a, M[0], M[1], cs))
            if proj:       # (M + Q) - Q in projective form
                lines += ['padd %d %d 0' % (a, a), 'psub %d %d 0' % (a, a)]
            want[len(lines)] = ['0']
            lines.append('eenc %d 0 %d' % (i, a))
            get.append((len(lines), M, i))
            lines.append('eget %d' % i)
            want[len(lines)] = ['0']
            lines.append('edec %d 0 %d' % (20 + i, i))
            e = c.encode(M, False)
            want[len(lines)] = [e.hex(), str(len(e))]
            lines.append('pout %d 0' % (20 + i))
            want[len(lines)] = ['0']
            lines.append('pcmp %d %d' % (20 + i, a))
            if oc.n != c.n:
                want[len(lines)] = ['1']
                lines.append('edec %d 1 %d' % (30 + i, i))
        # public key and plaintexts unchanged
        e = c.encode(Q, False)
        want[len(lines)] = [e.hex(), str(len(e))]
        lines.append('pout 0 0')
        want[len(lines)] = [hx(d), hx(c.n)]
        lines.append('fget 0')
        tags = {'roundtrips': len(case['ms'])}
        if not samec:
            want[len(lines)] = ['1']
            lines.append('eenc 40 0 9')
            want[len(lines)] = ['1']
            lines.append('eenc 41 9 0')
            lines += ['emk 42 0 9', 'edec 43 0 42']
            want[len(lines) - 1] = ['1']
            tags['other_curve'] = 1
        rep = env['drv'].batch(lines)
        for i in sorted(want):
            if ok(rep[i]) != want[i]:
                raise Violation('%s d=%x: %s answered %s, expected %s' % (case['curve'], d, lines[i], rep[i], ' '.join(want[i])))
        second = ['pinit 51 0', 'pinit 52 2', 'pinit 53 0']
        w2 = {}
        for i, M, n in get:
            C, D = [c.decode(bytes.fromhex(x)) for x in ok(rep[i])]
            P = []
            for x in (C, D):
                if x == c.REJECT:
                    raise Violation('%s: ciphertext component is not a point of the curve: %s' % (case['curve'], rep[i]))
                P.append(x[1] if isinstance(x, tuple) and len(x) and x[0] == c.EITHER else x)
            C, D = P
            T = c.sub(D, M)
            if C == c.O:
                raise Violation('%s: C is the neutral element' % case['curve'])
            if c.mul_int(C, c.n) != c.O:
                raise Violation('%s: C is not a multiple of the generator' % case['curve'])
            if c.n < 3000:
                A, B = c.G, Q
                for k in range(1, c.n):
                    if A == C:
                        break
                    A, B = c.add(A, c.G), c.add(B, Q)
                else:
                    raise Violation('%s: C = %s is not kG for k in [1, n-1]' % (case['curve'], C))
                if B != T:
                    raise Violation('%s d=%d: C = %dG but D - M = %s, expected %s' % (case['curve'], d, k, T, B))
                tags['dlog'] = tags.get('dlog', 0) + 1
            elif c.mul_int(C, d) != T:
                raise Violation('%s d=%x: D - M differs from dC' % (case['curve'], d))
            # a ciphertext assembled from separately imported points
            second += ['pbytes 51 %s 0' % c.encode(C, False).hex(), 'pbytes 52 %s 2' % c.encode(D, True).hex(), 'emk 45 51 52', 'edec 44 0 45',
                       'pout 44 0', 'pclr 44', 'eclr 45']
            w2[len(second) - 4] = ['0']
            e = c.encode(M, False)
            w2[len(second) - 3] = [e.hex(), str(len(e))]
        rep = env['drv'].batch(second)
        for i in sorted(w2):
            if ok(rep[i]) != w2[i]:
                raise Violation('%s d=%x: re-assembled ciphertext: %s answered %s, expected %s' % (case['curve'], d, second[i], rep[i], ' '.join(w2[i])))
        return tags

    def shrinks(self, case):
        for i in range(len(case['ms'])):
            if len(case['ms']) > 1:
                yield dict(case, ms=case['ms'][:i] + case['ms'][i + 1:])
        for v in (1, 2, case['d'] // 2):
            if 0 < v < case['d']:
                yield dict(case, d=v)


CHECKS = {'S01': S01, 'S02': S02, 'S03': S03, 'G01': G01}
