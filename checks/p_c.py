"""C01, C02: curve construction, membership, equality, copies, built-in table."""
import math
import re
import ref
from core import CCheck, Violation, Skip, ok
from pmodel import Pool, pick_point, curve_cmd, hx, jp
from ref import Curve, inv

KINDS = ['ws', 'ed', 'mo', 'te']


def th(s):
    return s.encode().hex() if s else '.'


def rand_prime(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(ref.SMALL_PRIMES)
    if r < 0.75:
        return rng.choice(ref.FIELD_PRIMES)
    if r < 0.9:
        return rng.choice(list(ref.NAMED.values())).p
    return rng.choice(ref.BIG)[0]


def solved_curve(rng, kind, p=None):
    """Curve with arbitrary coefficients through a random point (order and cofactor arbitrary)."""
    for _ in range(200):
        q = p or rand_prime(rng)
        if q < 5 or q.bit_length() > 1024:
            continue
        x, y = rng.randrange(q), rng.randrange(q)
        k1 = rng.randrange(q) if rng.random() < 0.8 else rng.choice([0, 1, q - 1, q - 3])
        if kind == 'ws':
            k2 = y * y - x ** 3 - k1 * x
        elif kind == 'mo':
            if x == 0 or k1 == 0:
                continue
            k2 = (k1 * y * y - x ** 3 - x) * inv(x * x, q)
        elif kind == 'ed':
            if x * y * k1 % q == 0:
                continue
            k2 = ((x * x + y * y) * inv(k1 * k1, q) - 1) * inv(x * x * y * y, q)
        else:
            if x * y % q == 0:
                continue
            k2 = (k1 * x * x + y * y - 1) * inv(x * x * y * y, q)
        n = rng.choice([rng.choice(ref.SMALL_PRIMES), rand_prime(rng), rng.choice(ref.BIG)[1]])
        if n < 3 or n.bit_length() > 1024:
            continue
        h = rng.choice([1, 2, 4, 8, rng.getrandbits(20) + 1])
        c = Curve(kind, q, k1, k2, n, h, x, y)
        assert c.on(x, y)
        return c
    raise Skip('solved_curve')


NUM = re.compile(r'^-?(0[xX][0-9a-fA-F]+|0[bB][01]+|0[0-7]*|[1-9][0-9]*)$')


def parse(s):
    """Value of the text, None when it is not a number, 'maybe' when the formats disagree about it."""
    if re.search(r'\s', s) or '+' in s:
        return 'maybe'
    if re.match(r'^-?0[xXbB]?$', s) and len(s.lstrip('-')) == 2:
        return 'maybe'
    if not NUM.match(s):
        if re.match(r'^-?0[bB]', s):
            return None if re.search('[^01]', s.lstrip('-')[2:]) or len(s.lstrip('-')) == 2 else 'maybe'
        return None
    neg = s.startswith('-')
    t = s.lstrip('-')
    if t[:2] in ('0x', '0X'):
        v = int(t, 16)
    elif t[:2] in ('0b', '0B'):
        v = int(t, 2)
    elif t[0] == '0':
        v = int(t, 8)
    else:
        v = int(t)
    return -v if neg else v


def verdict(kind, v, bits):
    """'ok', 'bad' or 'either' for parameters p k1 k2 n h gx gy."""
    p, k1, k2, n, h, gx, gy = v
    if p <= 1 or p % 2 == 0 or n < 1 or p.bit_length() > 1024 or n.bit_length() > 1024:
        return 'bad'
    if bits < p.bit_length() or bits > 65535:
        return 'bad'
    if kind == 'mo' and k1 % p == 0:
        return 'bad'
    c = Curve(kind, p, k1, k2, max(n, 1), h, gx, gy)
    if not c.on(gx, gy):
        return 'bad'
    if p < 5 or n < 3 or h < 1 or bits > 1024 or not ref.is_prime(p) or not ref.is_prime(n):
        return 'either'
    if not (0 <= gx < p and 0 <= gy < p):
        return 'either'
    if not c.nonsingular():
        return 'either'
    if (gx, gy) == c.O:
        return 'either'
    return 'ok'


class C01(CCheck):
    pid = 'C01'
    rule = ('a case is either a curve (random toy/supersingular/built-in of every form, or random coefficients through a random point '
            'over primes of 3 to 1024 bits) with 20-60 membership queries (points on the curve, near misses, swapped, unreduced and '
            'negative coordinates), a complete membership table of a toy curve, or a sequence of 2-6 constructions in one object from '
            'integers or text whose parameters are valid or mutated (generator off the curve, zero/even/oversized modulus or order, too '
            'small declared size, text that is not a number), followed by reading the parameters back; non-trivial: contains a query '
            'whose point is on the curve and one off it, or a rejected and an accepted construction')
    cases = {'quick': 16000, 'thorough': 500000}
    budget = {'quick': 120, 'thorough': 1800}
    assumptions = ['moduli are odd primes > 3 in constructions that must succeed; composite moduli, orders that are not prime, and '
                   'generators equal to the neutral element are not judged']

    def worker_init(self, env):
        super().worker_init(env)
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'])

    def fixed_cases(self, tier, env):
        import random
        rng = random.Random(5)
        out = []
        for k in KINDS:
            for i in range(8 if tier == 'quick' else 40):
                out.append({'all': ref.toy_curve(rng, k, pmax=41 if i % 2 else 23).to_json()})
        return out

    def gen(self, rng, env):
        if rng.random() < 0.5:
            c = env['pool'].pick(rng, 0.4, 0.2) if rng.random() < 0.6 else solved_curve(rng, rng.choice(KINDS))
            p = c.p
            qs = []
            for _ in range(rng.randrange(20, 60)):
                r = rng.random()
                if r < 0.6:
                    P = None
                    if rng.random() < 0.7:
                        x = rng.choice([0, 1, 2, p - 1, rng.randrange(p), rng.randrange(p)])
                        ys = c.lift(x) if c.k1 % p or c.kind != 'mo' else []
                        if ys:
                            P = (x, rng.choice(ys))
                    x, y = P or c.G
                    m = rng.random()
                    if m < 0.45:
                        pass
                    elif m < 0.55:
                        y = (y + rng.choice([1, -1, 1 << rng.randrange(p.bit_length())])) % p
                    elif m < 0.65:
                        x = (x ^ (1 << rng.randrange(p.bit_length()))) % p
                    elif m < 0.72:
                        x, y = y, x
                    elif m < 0.8:
                        y = -y % p
                    elif m < 0.85:
                        x = -x % p
                    elif m < 0.95:
                        x, y = x + p * rng.choice([-1, 1, 5]), y - p * rng.choice([0, 1, -1, 1 << 70])
                    else:
                        x = rng.choice([0, 1]) if rng.random() < 0.5 else x
                        y = rng.choice([0, 1, p - 1])
                else:
                    x, y = rng.randrange(p), rng.randrange(p)
                qs.append([x, y])
            return {'curve': c.to_json(), 'q': qs}
        builds = []
        for _ in range(rng.randrange(2, 7)):
            builds.append(self.gen_build(rng, env))
        return {'builds': builds}

    def gen_build(self, rng, env):
        c = env['pool'].pick(rng, 0.5, 0.2) if rng.random() < 0.5 else solved_curve(rng, rng.choice(KINDS))
        v = c.params()[1:8]
        bits = c.bits if rng.random() < 0.9 else c.p.bit_length() + rng.choice([1, 7, 8, 30])
        if bits > 1024:
            bits = 1024
        kind = c.kind
        p = v[0]
        r = rng.random()
        if r < 0.4:
            pass
        elif r < 0.55:
            i = rng.choice([5, 6, 1, 2])
            v[i] = (v[i] + rng.choice([1, -1, 1 << rng.randrange(p.bit_length())])) % p
        elif r < 0.62:
            i = rng.choice([1, 2])
            v[i] += p * rng.choice([1, -1, 3])
        elif r < 0.66:
            kind = rng.choice(KINDS)
        elif r < 0.76:
            v[0] = rng.choice([0, 1, 2, 4, -1, -p, p + 1, 1 << 1024, (1 << 1024) + 643, 1 << rng.randrange(2, 1100), (1 << 2048) + 1, p << 1])
        elif r < 0.84:
            v[3] = rng.choice([0, -1, -v[3], 1 << 1025, (1 << 2000) + 1])
        elif r < 0.92:
            bits = rng.choice([0, 1, p.bit_length() - 1, p.bit_length() - 8, p.bit_length() // 2, (1 << 31) - 1, (1 << 32) - 1, 1 << 31])
            bits = max(0, bits)
        elif r < 0.95:
            v[1] = rng.choice([0, p, -p])
        else:
            v[5], v[6] = rng.choice([(0, 0), (0, 1), (1, 0), (v[5] + p, v[6]), (v[5], v[6] - p)])
        if rng.random() < 0.45:
            return ['z', kind, v, bits]
        t = []
        for x in v:
            f = rng.choice(['d', 'x', 'x', 'X', 'o', '0x0'])
            s, a = ('-' if x < 0 else ''), abs(x)
            t.append(s + {'d': '%d' % a, 'x': '0x%x' % a, 'X': '0X%X' % a, 'o': '0%o' % a, '0x0': '0x00%x' % a}[f])
        if rng.random() < 0.35:
            i = rng.randrange(7)
            s = t[i]
            t[i] = rng.choice(['', 'x', '0x', '-', '--1', s + 'g', 'g' + s, s + '.0', s + 'L', s[:2] + '_' + s[2:], '1e3', 'NaN', '\xe9', '0xg', '08',
                               '0b2', '#1', s + ',', s + '\x01', '0x-1', '%s', 'a' * 40, s + 'z' * 3, '0x' + 'f' * 20 + '!'])
        return ['s', kind, t, bits]

    def run(self, case, env):
        drv = env['drv']
        if 'all' in case:
            c = Curve.from_json(case['all'])
            lines = ['reset', curve_cmd(0, c)]
            for x in range(c.p):
                for y in range(c.p):
                    lines.append('cchk 0 %x %x' % (x, y))
            rep = drv.batch(lines)
            i = 2
            for x in range(c.p):
                for y in range(c.p):
                    if ok(rep[i])[0] != str(int(c.on(x, y))):
                        raise Violation('%s: membership of (%d,%d) answered %s' % (case['all'], x, y, rep[i]))
                    i += 1
            return {'table_points': c.p * c.p, 'on': 1, 'off': 1}
        tags = {}
        if 'curve' in case:
            c = Curve.from_json(case['curve'])
            lines = ['reset', curve_cmd(0, c)] + ['cchk 0 %s %s' % (hx(x), hx(y)) for x, y in case['q']]
            rep = drv.batch(lines)
            if ok(rep[1]) != ['0']:
                if c.G == c.O or not c.nonsingular():
                    raise Skip('degenerate')
                raise Violation('a valid curve was refused: %s' % lines[1])
            for (x, y), r in zip(case['q'], rep[2:]):
                e = int(c.on(x, y))
                tags['on' if e else 'off'] = tags.get('on' if e else 'off', 0) + 1
                if ok(r)[0] != str(e):
                    raise Violation('%s: membership of (%x,%x) answered %s, expected %d' % (case['curve'], x, y, r, e))
            return tags
        lines, chk = ['reset'], []
        for b in case['builds']:
            if b[0] == 'z':
                v = b[2]
                lines.append('cz 0 %s %s %d' % (b[1], ' '.join(hx(x) for x in v), b[3]))
            else:
                v = [parse(s) for s in b[2]]
                if any('\0' in s for s in b[2]):
                    raise Skip('nul')
                lines.append('cs 0 %s %s %d' % (b[1], ' '.join(s.encode('latin1').hex() or '.' for s in b[2]), b[3]))
            if None in v:
                e = 'bad'
            elif 'maybe' in v:
                e = 'either'
            else:
                e = verdict(b[1], v, b[3])
            lines.append('cdump 0')
            chk.append((len(lines) - 2, b, v, e))
        # afterwards the object must still be usable
        good = ref.NAMED['secp256k1']
        lines += [curve_cmd(0, good), 'cdump 0', 'pinit 0 0', 'psetz 0 %x %x 0' % good.G, 'pdbl 0 0', 'pout 0 0']
        rep = drv.batch(lines)
        for i, b, v, e in chk:
            got = ok(rep[i])[0]
            tags['built_' + e] = tags.get('built_' + e, 0) + 1
            if (got == '0' and e == 'bad') or (got != '0' and e == 'ok'):
                raise Violation('construction %s answered %s but the parameters are %s' % (
                    b, 'success' if got == '0' else 'error', 'unusable' if e == 'bad' else 'usable'))
            if got == '0' and 'maybe' not in v:
                d = ok(rep[i + 1])
                p = v[0]
                want = [b[1], hx(p), hx(v[1] % p), hx(v[2] % p), hx(v[3]), hx(v[4])]
                if d[:6] != want or int(d[6], 16) % p != v[5] % p or int(d[7], 16) % p != v[6] % p or d[8] != str(b[3]):
                    raise Violation('construction %s reads back as %s' % (b, d))
        if ok(rep[-5]) != ['ws', hx(good.p), hx(good.k1), hx(good.k2), hx(good.n), hx(good.h), hx(good.G[0]), hx(good.G[1]), '256'] \
                or ok(rep[-1])[0] != good.encode(good.dbl(good.G), False).hex():
            raise Violation('a curve object is unusable after the constructions %s' % case['builds'])
        return tags

    def nontrivial(self, case, tags):
        return (tags.get('on', 0) and tags.get('off', 0)) or (tags.get('built_ok', 0) and tags.get('built_bad', 0))

    def shrinks(self, case):
        for k in ('q', 'builds'):
            if k in case:
                for i in range(len(case[k])):
                    yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})


# ---------------------------------------------------------------- C02
def int_curve(rng, kind):
    """Coefficients as small integers that satisfy the equation over the integers: valid modulo any prime."""
    if kind == 'ws':
        x, a = rng.randrange(3), rng.randrange(4)
        y = rng.randrange(6, 12)
        return a, y * y - x ** 3 - a * x, x, y
    if kind == 'ed':
        return 1, rng.randrange(2, 50), 1, 0
    if kind == 'te':
        return 1, rng.randrange(2, 50), 1, 0
    y = rng.randrange(1, 5)
    B = rng.randrange(1, 6)
    return B, B * y * y - 2, 1, y


class C02(CCheck):
    pid = 'C02'
    rule = ('a case is a set of 2-7 curve objects (a base curve of any form and variants differing in exactly one of: form, field, either '
            'coefficient, order, cofactor, generator; equal curves built by name, integers or text; copies, copies of copies, copies over '
            'an object of another form and field, copies whose original is afterwards rebuilt or destroyed) and all pairwise comparisons '
            'plus parameter read-back; every built-in curve is checked for primality, order, cofactor, membership and size, and mutated '
            'names must be refused; non-trivial: at least one equal and one unequal pair')
    cases = {'quick': 14000, 'thorough': 400000}
    budget = {'quick': 120, 'thorough': 1800}
    assumptions = ['primality of built-in parameters is tested with 12-base Miller-Rabin']

    def worker_init(self, env):
        super().worker_init(env)
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'])

    def fixed_cases(self, tier, env):
        rep = env['drv'].batch(['clist'])
        names = ok(rep[0])
        return [{'list': names}] + [{'name': n} for n in sorted(set(names) | set(ref.NAMED))]

    def variant(self, rng, c):
        kind, p, k1, k2, n, h, gx, gy, bits = c.params()
        for _ in range(30):
            r = rng.randrange(8)
            try:
                if r == 0:
                    n2 = rng.choice([n + 2, n - 2, rng.choice(ref.SMALL_PRIMES), n ^ (1 << rng.randrange(n.bit_length() + 1))])
                    v = Curve(kind, p, k1, k2, n2, h, gx, gy)
                elif r == 1:
                    v = Curve(kind, p, k1, k2, n, h + rng.choice([1, 2, 1 << 64]), gx, gy)
                elif r == 2:
                    v = Curve(kind, p, k1, k2, n, h, *c.neg((gx, gy)))
                elif r == 3:
                    v = Curve(kind, p, k1, k2, n, h, *(c.rand_point(rng) or (gx, gy)))
                elif r == 4 and kind == 'ws':
                    d = rng.choice([1, p - 1, rng.randrange(p)])
                    v = Curve(kind, p, k1 + d, k2 - d * gx, n, h, gx, gy)
                elif r == 5 and kind == 'ws' and gx == 0:
                    v = Curve(kind, p, k1 + 1, k2, n, h, gx, gy)
                elif r == 6:
                    if kind == 'mo':
                        b = rng.randrange(1, p)
                        v = Curve(kind, p, b, (b * gy * gy - gx ** 3 - gx) * inv(gx * gx, p), n, h, gx, gy)
                    elif kind == 'ed':
                        b = rng.choice([rng.randrange(1, p), p - k1])
                        v = Curve(kind, p, b, ((gx * gx + gy * gy) * inv(b * b, p) - 1) * inv(gx * gx * gy * gy, p), n, h, gx, gy)
                    elif kind == 'te':
                        b = rng.randrange(1, p)
                        v = Curve(kind, p, b, (b * gx * gx + gy * gy - 1) * inv(gx * gx * gy * gy, p), n, h, gx, gy)
                    else:
                        continue
                elif r == 7:
                    if kind == 'ed' and k1 == 1:
                        v = Curve('te', p, 1, k2, n, h, gx, gy)
                    elif kind == 'te' and k1 == 1:
                        v = Curve('ed', p, 1, k2, n, h, gx, gy)
                    else:
                        continue
                else:
                    continue
            except ValueError:
                continue
            if v.n < 3 or v.n.bit_length() > 1024 or v.params() == c.params() or not v.on(*v.G) or v.G == v.O or not v.nonsingular():
                continue
            return v
        return None

    def gen(self, rng, env):
        if rng.random() < 0.08:
            base = rng.choice(list(ref.NAMED))
            out = []
            for _ in range(12):
                s = rng.choice(list(ref.NAMED)) if rng.random() < 0.5 else base
                m = rng.randrange(6)
                if m == 0:
                    s = s[:-1]
                elif m == 1:
                    s = s + rng.choice(['1', 'x', ' ', '0', s])
                elif m == 2:
                    i = rng.randrange(len(s))
                    s = s[:i] + rng.choice('abk0123456789EP-_. ') + s[i + 1:]
                elif m == 3:
                    s = rng.choice(['', ' ', 'unknown', 'A' * 300, 'curve', '%s%n'])
                elif m == 4:
                    s = s[1:]
                else:
                    s = s[::-1]
                if s.lower() not in {x.lower() for x in ref.NAMED}:
                    out.append(s)
            return {'badnames': out, 'keep': base}
        r = rng.random()
        if r < 0.2:
            kind = rng.choice(KINDS)
            k1, k2, gx, gy = int_curve(rng, kind)
            n, h = rng.choice(ref.SMALL_PRIMES), rng.randrange(1, 9)
            cs = [Curve(kind, rng.choice(ref.FIELD_PRIMES + ref.SMALL_PRIMES[100:]), k1, k2, n, h, gx, gy) for _ in range(2)]
            cs = [c for c in cs if c.nonsingular() and c.p > 2000 and c.p.bit_length() <= 1024]
            if len(cs) < 2:
                cs = [env['pool'].pick(rng, 0.4, 0.3)]
        else:
            c = env['pool'].pick(rng, 0.35, 0.2) if rng.random() < 0.6 else solved_curve(rng, rng.choice(KINDS))
            cs = [c]
        for c in cs:
            if not c.nonsingular() or c.G == c.O:
                return self.gen(rng, env)
        for _ in range(rng.randrange(0, 3)):
            v = self.variant(rng, rng.choice(cs))
            if v:
                cs.append(v)
        ops = []
        live = {}
        for i in range(rng.randrange(2, 5)):
            j = rng.randrange(len(cs))
            ops.append(['new', i, j, rng.choice(['z', 's', 'n'])])
            live[i] = j
        if len(cs) > 1:
            ops.append(['new', 4, 0, 'z'])
            ops.append(['new', 5, 1, 'z'])
            live[4], live[5] = 0, 1
        for _ in range(rng.randrange(1, 8)):
            a, b = rng.choice(sorted(live)), rng.randrange(8)
            r = rng.random()
            if r < 0.5:
                ops.append(['copy', b, a])
                live[b] = live[a]
            elif r < 0.7:
                j = rng.randrange(len(cs))
                ops.append(['new', a, j, rng.choice(['z', 's'])])
                live[a] = j
            elif r < 0.85 and len(live) > 1:
                ops.append(['clr', a])
                del live[a]
            else:
                ops.append(['cmpall'])
        ops.append(['cmpall'])
        return {'curves': [c.to_json() for c in cs], 'ops': ops}

    def run(self, case, env):
        drv = env['drv']
        if 'list' in case:
            names = ok(drv.batch(['clist'])[0])
            if len(set(names)) != len(names):
                raise Violation('the list of built-in curves has duplicates')
            miss = set(ref.NAMED) - set(names)
            if miss:
                raise Violation('built-in curves missing from the list: %s' % sorted(miss))
            return {'list': 1}
        if 'name' in case:
            return self.builtin(case['name'], drv)
        if 'badnames' in case:
            keep = ref.NAMED[case['keep']]
            lines = ['reset', curve_cmd(0, keep), 'cdump 0']
            for s in case['badnames']:
                lines += ['cn 0 ' + (s.encode('latin1').hex() or '.'), 'cn 1 ' + (s.encode('latin1').hex() or '.')]
            rep = drv.batch(lines)
            for i, s in enumerate(case['badnames']):
                if ok(rep[3 + 2 * i]) != ['1'] or ok(rep[4 + 2 * i]) != ['1']:
                    raise Violation('the unknown curve name %r was accepted' % s)
            return {'badnames': len(case['badnames'])}
        cs = [Curve.from_json(j) for j in case['curves']]
        lines, exp = ['reset'], [None]
        live = {}
        tags = {}
        for op in case['ops']:
            if op[0] == 'new':
                c = cs[op[2]]
                v = c.params()[1:8]
                if op[3] == 's':
                    lines.append('cs %d %s %s %d' % (op[1], c.kind, ' '.join(('%d' % x if i % 2 else '0x%X' % x).encode().hex() for i, x in enumerate(v)), c.bits))
                elif op[3] == 'n' and c.name:
                    lines.append('cn %d %s' % (op[1], c.name.encode().hex()))
                else:
                    lines.append('cz %d %s %s %d' % (op[1], c.kind, ' '.join(hx(x) for x in v), c.bits))
                exp.append(['0'])
                live[op[1]] = op[2]
            elif op[0] == 'copy':
                if op[2] not in live:
                    raise Skip('dead')
                lines.append('cset %d %d' % (op[1], op[2]))
                exp.append([])
                live[op[1]] = live[op[2]]
                tags['copies'] = tags.get('copies', 0) + 1
            elif op[0] == 'clr':
                if op[1] not in live:
                    raise Skip('dead')
                lines.append('cclr %d' % op[1])
                exp.append([])
                del live[op[1]]
            else:
                for a in sorted(live):
                    c = cs[live[a]]
                    lines.append('cdump %d' % a)
                    exp.append([c.kind, hx(c.p), hx(c.k1), hx(c.k2), hx(c.n), hx(c.h), hx(c.G[0]), hx(c.G[1]), str(c.bits)])
                    for b in sorted(live):
                        d = cs[live[b]]
                        eq = c.params()[:8] == d.params()[:8]
                        if a != b:
                            tags['eq' if eq else 'ne'] = tags.get('eq' if eq else 'ne', 0) + 1
                        lines.append('ccmp %d %d' % (a, b))
                        exp.append([str(int(not eq))])
        # a surviving object must still compute
        for a in sorted(live)[:2]:
            c = cs[live[a]]
            if c.complete() and c.name:
                s = 40 + a
                lines += ['pinit %d %d' % (s, a), 'psetz %d %x %x %d' % (s, c.G[0], c.G[1], a), 'pdbl %d %d' % (s, s), 'pout %d 0' % s]
                exp += [[], [], [], [c.encode(c.dbl(c.G), False).hex(), str(1 + 2 * c.blen)]]
        rep = drv.batch(lines)
        for l, r, e in zip(lines, rep, exp):
            if e is not None and ok(r) != e:
                raise Violation('%s answered %s, expected %s' % (l, r, e))
        return tags

    def builtin(self, name, drv):
        rep = drv.batch(['reset', 'cn 0 ' + name.encode().hex(), 'cdump 0'])
        if ok(rep[1]) != ['0']:
            raise Violation('built-in curve %s is refused' % name)
        d = ok(rep[2])
        v = [int(x, 16) for x in d[1:8]]
        c = Curve(d[0], *v, bits=int(d[8]))
        bad = []
        if not ref.is_prime(c.p):
            bad.append('field is not prime')
        if not ref.is_prime(c.n):
            bad.append('order is not prime')
        if not c.nonsingular():
            bad.append('curve is singular')
        if not c.complete():
            bad.append('addition law is not complete')
        if not c.on(*c.G) or c.G == c.O:
            bad.append('generator is not on the curve')
        elif c.mul_int(c.G, c.n) != c.O:
            bad.append('generator does not have the declared order')
        if abs(c.h * c.n - (c.p + 1)) > 2 * math.isqrt(c.p) + 1:
            bad.append('cofactor is inconsistent with the field size')
        if c.bits != c.p.bit_length():
            bad.append('declared size is not the size of the field')
        if bad:
            raise Violation('built-in curve %s: %s' % (name, '; '.join(bad)))
        return {'builtin': 1}

    def nontrivial(self, case, tags):
        return 'name' in case or 'badnames' in case or (tags.get('eq', 0) and tags.get('ne', 0))

    def shrinks(self, case):
        if 'ops' not in case:
            return
        ops = case['ops']
        for i in range(len(ops)):
            yield dict(case, ops=ops[:i] + ops[i + 1:])


CHECKS = {'C01': C01, 'C02': C02}
