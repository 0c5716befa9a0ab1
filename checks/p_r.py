"""S04, R01, R02: randomness."""
import random

import ref
import stats
from core import CCheck, Violation, Skip, ok
from pmodel import Pool, pick_point, jp, curve_cmd, hx, hb
from p_s import pick_key, valid_nonces, digest
from ref import Curve


# ------------------------------------------------------------ discrete logs
def smooth_curve(rng, bits, kind):
    """Supersingular curve whose generator has a smooth (composite, odd) order: discrete logs are easy."""
    primes = [q for q in ref.SMALL_PRIMES if 5 < q < 800]
    while True:
        n = 3 if rng.random() < 0.5 else 1
        fs = [3] if n == 3 else []
        ps = primes[:]
        rng.shuffle(ps)
        while n.bit_length() < bits - 9:
            q = ps.pop()
            n *= q
            fs.append(q)
        for h in range(4, 4 * 60, 4):
            p = h * n - 1
            if p.bit_length() <= bits + 8 and ref.is_prime(p) and p % 4 == 3:
                break
        else:
            continue
        c = ref.supersingular(rng, kind, p, n)
        if all(c.mul_int(c.G, n // f) != c.O for f in fs):
            c.factors = fs
            return c


class Dlog:
    def __init__(self, c, fs):
        self.c, self.fs, self.n = c, sorted(fs), c.n
        self.tab = {}
        for f in self.fs:
            B = c.mul_int(c.G, self.n // f)
            t, P = {}, c.O
            for i in range(f):
                t[P] = i
                P = c.add(P, B)
            self.tab[f] = t

    def log(self, P):
        res = []
        self._go(P, self.fs, res)
        k, m = 0, 1
        for f, r in res:
            k += m * ((r - k) * ref.inv(m, f) % f)
            m *= f
        return k

    def _go(self, P, fs, res):
        # P is k*(n/prod(fs))*G restricted to the factors fs
        if len(fs) == 1:
            i = self.tab[fs[0]].get(P)
            if i is None:
                raise Violation('a random point is outside the group of the generator')
            res.append((fs[0], i))
            return
        a, b = fs[:len(fs) // 2], fs[len(fs) // 2:]
        pa = pb = 1
        for f in a:
            pa *= f
        for f in b:
            pb *= f
        self._go(self.c.mul_int(P, pb), a, res)
        self._go(self.c.mul_int(P, pa), b, res)


def counting_toy(rng, kind, lo, hi):
    """toy curve with n in (lo, hi)"""
    while True:
        c = ref.toy_curve(rng, kind, pmax=600)
        if lo < c.n < hi:
            return c


# ---------------------------------------------------------------- S04
class S04(CCheck):
    pid = 'S04'
    rule = ('a case is a curve with a key and a batch of 20-400 signatures or encryptions (repeated and different messages, one or several schemes, '
            'fresh driver processes); every nonce is recovered (k = (e + rd)/s; ephemeral scalars by exhaustive or Pohlig-Hellman '
            'logarithms on curves with a smooth group order), must lie in [1, n-1], differ from key and digest and give r; over the whole '
            'run, per curve (all built-in curves, toy curves with counts of every admissible nonce, supersingular curves up to 1024 bits) the '
            'distribution of leading part, low bits, residues, every single bit and consecutive pairs is tested against uniform and repeats '
            'across all processes are refused; non-trivial: at least 20 nonces recovered')
    cases = {'quick': 500, 'thorough': 8000}
    budget = {'quick': 200, 'thorough': 2400}
    restart_every = 12
    nondet = True
    variants = ['plain', 'plain', 'plain', 'asan']
    assumptions = ['/dev/urandom is a sound source', 'a bias is observable if a chi-square test on the sample sizes listed exceeds z = 7']

    def worker_init(self, env):
        super().worker_init(env)
        if 'toys' not in env['stats'] and 'toys' not in env:
            r = random.Random(4242)       # the same in every worker: their counts add up
            env['toys'] = [counting_toy(r, k, lo, hi) for k, lo, hi in
                           (('ws', 8, 30), ('mo', 30, 128), ('ed', 20, 140), ('te', 20, 140), ('ws', 128, 160), ('ws', 160, 250), ('ws', 258, 340))]
            env['smooth'] = []
            for k, b in (('ws', 140), ('mo', 264), ('ws', 530)):
                c = smooth_curve(r, b, k)
                env['smooth'].append((c, Dlog(c, c.factors)))
            env['big'] = [ref.supersingular(r, k, p, n) for k, (p, n) in zip(['ws', 'mo', 'ed', 'te'] * 4, r.sample([b for b in ref.BIG if b[1] >> 90], 10))]

    def fixed_cases(self, tier, env):
        rng = random.Random(83)
        out = []
        m = 1 if tier == 'quick' else 12
        for _ in range(m):
            for c in ref.NAMED.values():
                for i in range(2):
                    out.append({'sig': c.name, 'd': pick_key(c, rng), 'hash': rng.choice(['sha256', 'sha512', '32']), 'n': 70, 'v': rng.randrange(1 << 30)})
            for i in range(len(range(10))):
                out.append({'big': i, 'd': rng.getrandbits(80) + 1, 'hash': '20', 'n': 60, 'v': rng.randrange(1 << 30)})
            for i in range(3):
                for _ in range(8):
                    out.append({'elg': i, 'd': rng.getrandbits(80) + 1, 'n': 30 if i < 2 else 12, 'v': rng.randrange(1 << 30)})
        rng.shuffle(out)
        return out

    def gen(self, rng, env):
        r = rng.random()
        if r < 0.55:
            i = rng.randrange(len(env['toys']))
            c = env['toys'][i]
            return {'toy': i, 'd': rng.randrange(1, c.n), 'hash': '8', 'n': 400, 'v': rng.randrange(1 << 30)}
        if r < 0.8:
            i = rng.randrange(len(env['toys']))
            return {'toyelg': i, 'd': rng.randrange(1, env['toys'][i].n), 'n': 400, 'v': rng.randrange(1 << 30)}
        c = rng.choice(list(ref.NAMED.values()))
        return {'sig': c.name, 'd': pick_key(c, rng), 'hash': rng.choice(['sha256', 'sha512', '32', '64']), 'n': 50, 'v': rng.randrange(1 << 30)}

    def run(self, case, env):
        rng = random.Random(case['v'])
        st = env['stats']
        if 'elg' in case or 'toyelg' in case:
            if 'elg' in case:
                c, dl = env['smooth'][case['elg']]
                name = 'elgamal-smooth-%d' % c.n.bit_length()
            else:
                c = env['toys'][case['toyelg']]
                dl, name = None, 'elgamal-toy-%d' % c.n
            return self.elgamal(case, env, rng, c, dl, name)
        if 'toy' in case:
            c = env['toys'][case['toy']]
            name = 'ecdsa-toy-%d' % c.n
        elif 'big' in case:
            c = env['big'][case['big']]
            name = 'ecdsa-big-%d-%d' % (case['big'], c.n.bit_length())
        else:
            c = Curve.from_json(case['sig'])
            name = 'ecdsa-' + c.name
        d = case['d'] % c.n or 1
        hs = case['hash']
        toy = c.n < 5000
        ns = 1 if toy else rng.choice([1, 2])
        lines = ['reset', curve_cmd(0, c)] + ['hnew %d 0 %s' % (i, hs) for i in range(ns)] + ['finit 0 %x' % c.n, 'fsetz 0 %x %x' % (d, c.n)]
        at = []
        m0 = bytes(rng.getrandbits(8) for _ in range(8))
        same = rng.random() < 0.5
        probs = None
        if toy:
            # a digest for which (nearly) all nonces are admissible, the same for the whole batch
            for _ in range(60):
                m0 = bytes(rng.getrandbits(8) for _ in range(8))
                e = ref.hash_to_int(digest(hs, m0), c.n) % c.n
                ks = valid_nonces(c, d, e)
                if len(ks) * 2 > c.n:
                    break
            else:
                raise Skip('no digest')
            same = True
        for i in range(case['n']):
            m = m0 if same else bytes(rng.getrandbits(8) for _ in range(8))
            lines += ['sign 0 %d 0 %s' % (rng.randrange(ns), m.hex()), 'sclr 0']
            at.append((len(lines) - 2, m))
        rep = env['drv'].batch(lines)
        vals = []
        for i, m in at:
            g = ok(rep[i])
            if g[0] != '0':
                raise Violation('signing failed')
            r, s = int(g[1], 16), int(g[2], 16)
            e = ref.hash_to_int(digest(hs, m), c.n)
            if s == 0 or r == 0:
                raise Violation('%s: signature with r=%x s=%x' % (name, r, s))
            k = (e + r * d) * ref.inv(s, c.n) % c.n
            if k == 0:
                raise Violation('%s: the nonce behind a signature is zero' % name)
            if not toy and k in (d, c.n - d, e % c.n, -e % c.n, 1, 2, c.n - 1):
                raise Violation('%s d=%x: the nonce %x equals the key or the digest or is trivial' % (name, d, k))
            if toy and k not in ks:
                raise Violation('%s d=%x: the nonce %x admits no signature' % (name, d, k))
            vals.append(k)
        if not toy:
            if len(set(vals)) != len(vals):
                raise Violation('%s: a nonce repeats within %d signatures' % (name, len(vals)))
            for k in vals[:2]:
                i = at[vals.index(k)][0]
                if c.mul_int(c.G, k)[0] % c.n != int(ok(rep[i])[1], 16):
                    raise Violation('%s: r is not the abscissa of kG' % name)
            stats.Acc(st.setdefault('nonce', {})).add(name, 1, c.n, vals)
        else:
            # counts relative to what rejection sampling over the admissible nonces gives
            e = st.setdefault('toy', {}).setdefault(name, {'lo': '1', 'hi': str(c.n), 'n': 0, 'pairs': 0, 'all': [0] * (c.n - 1), 'exp': [0.0] * (c.n - 1)})
            e['n'] += len(vals)
            for k in vals:
                e['all'][k - 1] += 1
            for k in ks:
                e['exp'][k - 1] += len(vals) / float(len(ks))
        return {'nonces': len(vals), name.rsplit('-', 1)[0] if toy else 'ecdsa': 1}

    def elgamal(self, case, env, rng, c, dl, name):
        st = env['stats']
        d = case['d'] % c.n or 1
        Q = c.mul_int(c.G, d)
        if Q == c.O:
            raise Skip('Q')
        same = rng.random() < 0.5
        lines = ['reset', curve_cmd(0, c), 'pinit 0 0', 'pinit 1 0', 'psetz 0 %x %x 0' % Q, 'psetz 1 %x %x 0' % c.G]
        at = []
        for _ in range(case['n']):
            if not same:
                lines.append('pdbl 1 1')
            lines += ['eenc 0 0 1', 'eget 0', 'eclr 0']
            at.append(len(lines) - 2)
        rep = env['drv'].batch(lines)
        if dl is None:
            tab, P = {}, c.O
            for i in range(c.n):
                tab[P] = i
                P = c.add(P, c.G)
        vals = []
        for i in at:
            C = c.decode(bytes.fromhex(ok(rep[i])[0]))
            C = C[1] if isinstance(C, tuple) and len(C) and C[0] == c.EITHER else C
            k = dl.log(C) if dl else tab.get(C)
            if not k:
                raise Violation('%s: the ephemeral scalar of an encryption is %s (C = %s)' % (name, k, C))
            if dl and k in (d, c.n - d, 1, 2):
                raise Violation('%s: the ephemeral scalar %x equals the key or is trivial' % (name, k))
            vals.append(k)
        if dl and len(set(vals)) != len(vals):
            raise Violation('%s: an ephemeral scalar repeats within %d encryptions' % (name, len(vals)))
        stats.Acc(st.setdefault('nonce', {})).add(name, 1, c.n, vals)
        return {'nonces': len(vals), 'elgamal': 1}

    def final(self, aggs, env):
        m = stats.merge(aggs, 'nonce')
        bad, tests, worst = stats.judge(m, 'secrets')
        t = stats.merge(aggs, 'toy')
        total = sum(e['n'] for e in m.values()) + sum(e['n'] for e in t.values())
        for name, e in sorted(t.items()):
            sub = [(o, x) for o, x in zip(e['all'], e['exp']) if x > 0]
            tot = sum(x for _, x in sub)
            z = stats.chi2_z([o for o, _ in sub], [x / tot for _, x in sub])
            if z is not None:
                tests += 1
                worst = max(worst, z)
                if z > stats.Z:
                    bad.append((name, '%s: the distribution of %d nonces over [1, n-1] is biased (z = %.1f)' % (name, e['n'], z)))
        allh = [h for e in m.values() for h in e.get('h', [])]
        if not bad and len(set(allh)) != len(allh):
            bad.append(('all', 'secrets repeat across curves'))
        if bad:
            raise Violation(bad[0][1])
        return {'secrets_recovered': total, 'statistical_tests': tests, 'worst_z': round(worst, 2)}

    def nontrivial(self, case, tags):
        return tags.get('nonces', 0) >= 12


# ---------------------------------------------------------------- R01
class R01(CCheck):
    pid = 'R01'
    rule = ('a case is a batch of draws from one source: integers below a bound (every bound 1..300, powers of two +-1, bounds just above a power of '
            'two, up to 4100 bits, destination previously holding another value or being the bound itself), field elements (fields of 3..1024 bits, destination '
            'previously in another field) or points (toy groups counted completely; supersingular curves with smooth group order up to 530 '
            'bits, logarithms recovered); each value is range-checked, and per source the distribution of values, leading part, low bits, '
            'residues mod 105, single bits and consecutive pairs is tested over the whole run, with no repeats of long values across '
            'processes; non-trivial: at least 20 draws of a bound above 1')
    cases = {'quick': 2200, 'thorough': 40000}
    budget = {'quick': 150, 'thorough': 2400}
    restart_every = 100
    nondet = True
    variants = ['plain', 'plain', 'plain', 'asan']
    assumptions = ['/dev/urandom is a sound source', 'the documented reduction of a value twice as long as the bound leaves a relative bias below 0.4 % '
                   'for one-byte bounds and below 2^-16 otherwise, which is not counted as observable']

    def worker_init(self, env):
        super().worker_init(env)
        if 'toys' not in env:
            r = random.Random(4243)
            env['toys'] = [counting_toy(r, k, lo, hi) for k, lo, hi in
                           (('ws', 4, 20), ('mo', 20, 128), ('ed', 10, 140), ('te', 10, 140), ('ws', 128, 160), ('ws', 160, 250), ('ws', 258, 340))]
            env['smooth'] = []
            for k, b in (('ws', 140), ('mo', 264), ('ws', 530)):
                c = smooth_curve(r, b, k)
                env['smooth'].append((c, Dlog(c, c.factors)))
            big = [(1 << k) + d for k in (16, 24, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 511, 512, 521, 1023, 1024, 2048, 4096) for d in (-1, 0, 1)]
            big += [(3 << k) + 1 for k in (15, 30, 31, 62, 63, 126, 254, 510, 1022)]
            big += [c.n for c in ref.NAMED.values()][::3]
            env['bounds'] = list(range(1, 301)) + [384, 500, 511, 512, 513, 640, 768, 1000, 1023, 1024, 1025, 5000] + big
            env['fields'] = [3, 5, 7, 11, 13, 127, 131, 193, 251, 257] + [p for p in ref.FIELD_PRIMES if p >> 10]

    def fixed_cases(self, tier, env):
        out = []
        for b in env['bounds']:
            if b <= 1024:
                for _ in range(2):
                    out.append({'z': b, 'n': 1500})
            else:
                for _ in range(3):
                    out.append({'z': b, 'n': 250})
        for i in range(len(env['smooth'])):
            for _ in range(8):
                out.append({'sp': i, 'n': 24 if i < 2 else 10})
        return out * (1 if tier == 'quick' else 6)

    def gen(self, rng, env):
        r = rng.random()
        if r < 0.25:
            b = rng.choice(env['bounds'])
            return {'z': b, 'n': 600 if b <= 1024 else 150}
        if r < 0.28:
            return {'za': rng.choice(env['bounds']), 'n': 150}
        if r < 0.4:
            return {'zx': rng.choice(env['bounds']), 'init': rng.getrandbits(rng.choice([0, 8, 64, 500, 5000])), 'n': 60}
        if r < 0.75:
            return {'f': rng.choice(env['fields']), 'q': rng.choice(env['fields']), 'n': 150}
        return {'p': rng.randrange(len(env['toys'])), 'n': 250}

    def run(self, case, env):
        st = env['stats']
        acc = stats.Acc(st.setdefault('draw', {}))
        drv = env['drv']
        n = case['n']
        if 'z' in case or 'zx' in case or 'za' in case:
            b = case.get('z') or case.get('zx') or case.get('za')
            if b < 1:
                raise Skip('bound')
            if 'z' in case:
                vals = [int(x, 16) for x in ok(drv.batch(['zrand %x %d' % (b, n)])[0])]
            elif 'za' in case:
                vals = [int(ok(r)[0], 16) for r in drv.batch(['zralias %x' % b] * n)]
            else:
                vals = []
                for r in drv.batch(['zrandx %x %s' % (b, hx(case['init'] * (-1) ** i)) for i in range(n)]):
                    v, bb = ok(r)
                    if int(bb, 16) != b:
                        raise Violation('the bound %x was changed to %s' % (b, bb))
                    vals.append(int(v, 16))
            if len(vals) != n:
                raise Violation('expected %d values' % n)
            for v in vals:
                if not 0 <= v < b:
                    raise Violation('random integer %x is not below the bound %x' % (v, b))
            acc.add('integers-below-%s' % (b if b < 1 << 20 else '%d-bit-%x' % (b.bit_length(), b % 65537)), 0, b, vals)
            return {'integers': n, 'trivial': int(b == 1)}
        if 'f' in case:
            p = case['f']
            lines = ['reset', 'finit 0 %x' % case['q'], 'fsetz 0 1 %x' % case['q']] + ['frand 0 %x' % p] * n
            vals = []
            for r in drv.batch(lines)[3:]:
                v, q = ok(r)
                v = int(v, 16)
                if int(q, 16) != p or not 0 <= v < p:
                    raise Violation('random field element %x of field %s is not in [0, %x)' % (v, q, p))
                vals.append(v)
            acc.add('field-%s' % (p if p < 1 << 20 else '%d-bit-%x' % (p.bit_length(), p % 65537)), 0, p, vals)
            return {'elements': n}
        if 'p' in case:
            c, dl = env['toys'][case['p']], None
            name = 'points-toy-%s-%d' % (c.kind, c.n)
            tab, P = {}, c.O
            for i in range(c.n):
                tab[P] = i
                P = c.add(P, c.G)
        else:
            c, dl = env['smooth'][case['sp']]
            name = 'points-smooth-%d' % c.n.bit_length()
        lines = ['reset', curve_cmd(0, c), 'pinit 0 0'] + ['prand 0 0', 'pout 0 0'] * n
        rep = drv.batch(lines)
        vals = []
        for i in range(n):
            P = c.decode(bytes.fromhex(ok(rep[4 + 2 * i])[0]))
            if P == c.REJECT:
                raise Violation('%s: random point %s is not on the curve' % (name, rep[4 + 2 * i]))
            P = P[1] if isinstance(P, tuple) and len(P) and P[0] == c.EITHER else P
            k = dl.log(P) if dl else tab.get(P)
            if k is None:
                raise Violation('%s: random point %s is outside the group of the generator' % (name, P))
            vals.append(k)
        acc.add(name, 0, c.n, vals)
        return {'points': n}

    def final(self, aggs, env):
        m = stats.merge(aggs, 'draw')
        # the neutral element may be excluded from random points: both conventions are uniform
        for name, e in m.items():
            if name.startswith('points-toy') and e['all'][0] == 0:
                e['all'] = e['all'][1:]
                e['lo'] = '1'
                e['probs'] = [1.0 / len(e['all'])] * len(e['all'])
        bad, tests, worst = stats.judge(m, 'values')
        allh = [h for name, e in m.items() for h in e.get('h', [])]
        if not bad and len(set(allh)) != len(allh):
            bad.append(('all', 'long random values repeat across sources'))
        if bad:
            raise Violation(bad[0][1])
        return {'values_drawn': sum(e['n'] for e in m.values()), 'sources': len(m), 'statistical_tests': tests, 'worst_z': round(worst, 2)}

    def nontrivial(self, case, tags):
        return not tags.get('trivial') and case['n'] >= 10


# ---------------------------------------------------------------- R02
class R02(CCheck):
    pid = 'R02'
    rule = ('a case is a curve, key and a random program of draws (integers, field elements, points, signatures, encryptions) and nested '
            'forks (depth up to 3, up to 5 children, before and after the first use, siblings from one parent, immediately or after '
            'waiting) in which every process keeps drawing; all long values, points and recovered nonces of all processes must be '
            'different (and no two integers or nonces closer than 2^-60 of their range); non-trivial: two processes drew the same kind of value')
    cases = {'quick': 1500, 'thorough': 40000}
    budget = {'quick': 120, 'thorough': 1800}
    restart_every = 10
    timeout = 30.0
    nondet = True
    assumptions = ['/dev/urandom is a sound source']
    CURVES = ['secp256k1', 'Curve25519', 'E-222', 'M-221', 'secp521r1']

    def gen(self, rng, env):
        def prog(depth):
            s = ''
            for _ in range(rng.randrange(1, 5)):
                s += rng.choice('zzfpse') * rng.choice([1, 1, 1, 2, 3])
                if depth < 3 and rng.random() < (0.8 if depth == 0 else 0.35):
                    k = rng.choice('zzfpse')
                    for _ in range(rng.choice([1, 1, 2, 3]) if depth == 0 else 1):
                        s += '(' + (k * rng.choice([1, 2, 4]) if rng.random() < 0.7 else '') + prog(depth + 1) + ')'
                    if rng.random() < 0.2:
                        s += 'w'
                    s += k * rng.choice([1, 2, 3])
            return s
        s = prog(0)
        if '(' not in s:
            s += 'z(zsz)zsz'
        if len(s) > 120 or s.count('(') > 10:
            s = 'z' * rng.randrange(3) + '(zzse)(zzse(zz))zzse'
        c = ref.NAMED[rng.choice([n for n in self.CURVES if n in ref.NAMED])]
        return {'curve': c.name, 'd': rng.randrange(2, c.n - 1), 'prog': s}

    def run(self, case, env):
        c = Curve.from_json(case['curve'])
        d = case['d']
        prog = case['prog']
        if prog.count('(') != prog.count(')'):
            raise Skip('prog')
        Q = c.mul(c.G, d)
        lines = ['reset', curve_cmd(0, c), 'hnew 0 0 sha256', 'finit 0 %x' % c.n, 'fsetz 0 %x %x' % (d, c.n), 'pinit 0 0', 'psetz 0 %x %x 0' % Q,
                 'forkprog %s 0 0 0 0' % prog]
        rep = env['drv'].batch(lines)
        toks = ok(rep[-1])
        e = ref.hash_to_int(digest('sha256', b'm'), c.n)
        seen, kinds, ints = {}, {}, []
        for t in toks:
            if not t:
                continue
            tag, who, v = t.split(':', 2)
            if tag == 'X':
                raise Violation('%s: a child process died' % prog)
            kinds.setdefault(tag, set()).add(who)
            if tag == 's':
                r, s = [int(x, 16) for x in v.split(',')]
                k = (e + r * d) * ref.inv(s, c.n) % c.n
                ints.append((k * (1 << 300) // c.n, who, tag))
                v = 'k%x' % k
            elif tag == 'z':
                ints.append((int(v, 16) << 44, who, tag))
            elif tag == 'f':
                ints.append(((int(v, 16) << 300) // c.p, who, tag))
            key = (v,)
            if key in seen:
                raise Violation('%s on %s: value %s was obtained by process %s (%s) and process %s (%s)' % ((prog, case['curve'], v) + seen[key] + (who, tag)))
            seen[key] = (who, tag)
        ints.sort()
        for a, b in zip(ints, ints[1:]):
            if b[0] - a[0] < 1 << 220:
                raise Violation('%s: processes %s (%s) and %s (%s) obtained nearly equal values' % (prog, a[1], a[2], b[1], b[2]))
        nproc = len({w for s in kinds.values() for w in s})
        if sum(prog.count(x) for x in 'zfpse') != len([t for t in toks if t]):
            raise Violation('%s: %d values expected, %d obtained' % (prog, sum(prog.count(x) for x in 'zfpse'), len(toks)))
        return {'values': len(seen), 'processes': nproc, 'shared_kind': int(any(len(s) > 1 for s in kinds.values()))}

    def nontrivial(self, case, tags):
        return tags.get('shared_kind')

    def shrinks(self, case):
        p = case['prog']
        for i in range(len(p)):
            if p[i] in 'zfpsew':
                yield dict(case, prog=p[:i] + p[i + 1:])


CHECKS = {'S04': S04, 'R01': R01, 'R02': R02}
