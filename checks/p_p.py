"""P01-P04: group law, scalar multiplication, precomputed tables, destination-only effects."""
import ref
from core import CCheck, Violation, Skip, ok
from pmodel import Pool, Machine, pick_point, pick_scalar, jp, small_points, curve_cmd, hx
from ref import Curve

NP = 7


class Hist(CCheck):
    weights = {}
    ncurves = [1, 1, 2]
    wtoy, wbig = 0.65, 0.2
    nops = (6, 26)
    obs = 0.5
    maxheavy = 6          # scalar multiplications per case on big curves
    assumptions = ['curves are valid: prime field (not 2, 3), complete (twisted) Edwards parameters, n the prime order of the generator',
                   'both operands of one operation are on equal curves', 'GMP is correct']

    def worker_init(self, env):
        super().worker_init(env)
        if 'pool' not in env['stats']:
            env['pool'] = self.make_pool(env['rng'])

    def make_pool(self, rng):
        return Pool(rng)

    def pick_curves(self, rng, pool):
        k = rng.choice(self.ncurves)
        cs = [pool.pick(rng, self.wtoy, self.wbig) for _ in range(k)]
        if k > 1 and rng.random() < 0.3:
            cs[1] = cs[0]        # an equal but distinct curve object
        return cs

    def gen(self, rng, env):
        cs = self.pick_curves(rng, env['pool'])
        ops = []
        known = {}
        for s in range(NP):
            ci = rng.randrange(len(cs))
            c = cs[ci]
            P = pick_point(c, rng, known.get(ci, ()))
            known.setdefault(ci, []).append(P)
            ops.append(['init', s, rng.randrange(len(cs))])
            ops.append(['setz', s, ci, jp(P), rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])])
        names = sorted(self.weights)
        wts = [self.weights[n] for n in names]
        heavy = 0
        big = max(c.p.bit_length() for c in cs)
        cap = 99 if big < 30 else self.maxheavy if big < 300 else max(1, self.maxheavy // 2)
        nops = rng.randrange(*self.nops)
        ncur = len(cs)
        for _ in range(nops):
            o = rng.choices(names, wts)[0]
            d, a, b = rng.randrange(NP), rng.randrange(NP), rng.randrange(NP)
            if rng.random() < 0.3:
                d = a
            if rng.random() < 0.2:
                b = a
            ci = rng.randrange(ncur)
            c = cs[ci]
            if o in ('mul', 'bmul'):
                heavy += 1
                if heavy > cap:
                    o = 'add'
            if o in ('add', 'sub'):
                op = [o, d, a, b]
            elif o in ('dbl', 'neg', 'set'):
                op = [o, d, a]
            elif o in ('mul', 'bmul'):
                op = [o, d, a, pick_scalar(c, rng), int(rng.random() < 0.3)]
            elif o == 'bset':
                op = [o, a]
            elif o in ('swap', 'cmp'):
                op = [o, a, b]
            elif o == 'cswap':
                op = [o, a, b, rng.choice([0, 1, 1, 2, -1, 256])]
            elif o == 'setz':
                op = [o, d, ci, jp(pick_point(c, rng, known.get(ci, ()))), rng.choice([0, 1, 2, 3, 4, 5, 6])]
            elif o == 'neutral':
                op = [o, d, ci]
            elif o == 'aff':
                op = [o, a, rng.randrange(2)]
            elif o == 'out':
                op = [o, a, rng.randrange(2), rng.randrange(2)]
            elif o == 'reinit':
                ops.append(['clr', d])
                ops.append(['init', d, ci])
                op = ['setz', d, ci, jp(pick_point(c, rng)), rng.randrange(7)]
            elif o == 'rand':
                ops.append(['rand', d, ci])
                op = ['setz', d, ci, jp(pick_point(c, rng)), rng.randrange(4)]
            elif o == 'badimport':
                bts = bytes([rng.choice([4, 2, 3, 0, 5])]) + bytes(rng.getrandbits(8) for _ in range(rng.choice([c.blen, 2 * c.blen, 1])))
                if c.decode(bts) != c.REJECT:
                    continue
                ops.append(['badimport', d, ci, bts.hex()])
                op = ['setz', d, ci, jp(pick_point(c, rng)), rng.randrange(7)]
            elif o == 'obsall':
                op = [o]
            else:
                raise AssertionError(o)
            ops.append(op)
            if op[0] in ('add', 'sub', 'dbl', 'neg', 'mul', 'bmul') and rng.random() < self.obs:
                ops.append(['obs', d])
        return {'curves': [c.to_json() for c in cs], 'ops': ops}

    def run(self, case, env):
        cs = [Curve.from_json(j) for j in case['curves']]
        m = Machine(cs)
        for op in case['ops']:
            m.step(op)
        m.finish()
        m.check(env['drv'])
        for c in cs:
            m.tag('curve_%s_%s' % (c.kind, 'named' if c.name else 'toy' if c.p.bit_length() < 30 else 'big'))
        return m.tags

    def shrinks(self, case):
        if 'ops' not in case:
            return
        ops = case['ops']
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(case, ops=ops[:i] + ops[i + size:])
            size //= 2
        for i, op in enumerate(ops):
            if op[0] in ('mul', 'bmul'):
                for v in (0, 1, 2, 3, op[3] // 2, op[3] >> 8, op[3] - 1):
                    if abs(v) < abs(op[3]):
                        yield dict(case, ops=ops[:i] + [op[:3] + [v] + op[4:]] + ops[i + 1:])
            if op[0] == 'setz' and op[4] != 0:
                yield dict(case, ops=ops[:i] + [op[:4] + [0]] + ops[i + 1:])


class P01(Hist):
    pid = 'P01'
    rule = ('a case is 1-2 curves (random toy curves of all four forms with brute-forced group order, supersingular curves of 12..1024 bits '
            'with known even order, the 46 built-in curves) and a history of 6-26 additions, subtractions, doublings, negations, '
            'comparisons and copies over 7 point slots seeded with neutral, generator, small-order, equal, opposite and random points; '
            'operands stay in whatever projective form earlier operations left; results are compared with a textbook affine group law; '
            'non-trivial: at least 3 group operations compared; plus complete addition tables of toy curves')
    weights = {'add': 8, 'sub': 4, 'dbl': 4, 'neg': 2, 'cmp': 3, 'set': 1, 'aff': 1, 'neutral': 0.5, 'setz': 1.5, 'swap': 0.3, 'cswap': 0.5}
    cases = {'quick': 9000, 'thorough': 300000}
    budget = {'quick': 150, 'thorough': 2400}

    def fixed_cases(self, tier, env):
        import random
        rng = random.Random(77)
        out = []
        for kind in ('ws', 'mo', 'ed', 'te'):
            for i in range(14 if tier == 'quick' else 60):
                c = ref.toy_curve(rng, kind, pmax=23 if i % 2 else 37)
                out.append({'table': c.to_json()})
        return out

    def run(self, case, env):
        if 'table' not in case:
            return super().run(case, env)
        c = Curve.from_json(case['table'])
        pts = c.all_points()
        lines, want = ['reset', curve_cmd(0, c)] + ['pinit %d 0' % i for i in range(6)], []
        for P in pts:
            for Q in pts:
                for s, X in ((0, P), (1, Q)):
                    lines.append('pneu %d 0' % s if X is None else 'psetz %d %x %x 0' % (s, X[0], X[1]))
                # 2: P+Q from affine inputs; 3: (P+Q)-Q back to P; 4: (P+Q)+(P+Q) from projective inputs; 5: P+Q-P == Q
                lines += ['padd 2 0 1', 'psub 3 2 1', 'padd 4 2 2', 'psub 5 2 0', 'pcmp 3 0', 'pcmp 5 1', 'pcmp 0 1', 'pout 2 0', 'pout 4 0']
                S = c.add(P, Q)
                n = len(lines)
                want += [(n - 5, '0', P, Q), (n - 4, '0', P, Q), (n - 3, str(int(P != Q)), P, Q),
                         (n - 2, c.encode(S, False).hex(), P, Q), (n - 1, c.encode(c.add(S, S), False).hex(), P, Q)]
        rep = env['drv'].batch(lines, timeout=60)
        for i, e, P, Q in want:
            got = ok(rep[i])[0]
            if got != e:
                raise Violation('%s: P=%s Q=%s: %s answered %s, expected %s' % (case['table'], P, Q, lines[i], got, e))
        return {'table_pairs': len(pts) ** 2}

    def nontrivial(self, case, tags):
        return 'table' in case or sum(tags.get('op_' + o, 0) for o in ('add', 'sub', 'dbl', 'neg')) >= 3


class P02(Hist):
    pid = 'P02'
    rule = ('a case is 1-2 curves and 4-14 operations dominated by scalar multiplications (integer and field-element scalars: 0, 1, n+-1, '
            'negatives, powers of two +-1, near p and multiples of n, window patterns, up to 2000 bits) of points inside and outside the '
            'generator\'s group in arbitrary projective form, compared with independent repeated addition of (scalar mod n); '
            'for toy curves every scalar in [-2n, 2n] of every point is enumerated; non-trivial: at least one multiplication compared')
    weights = {'mul': 8, 'add': 2, 'dbl': 1, 'neg': 0.5, 'setz': 1, 'cmp': 1, 'rand': 0.3}
    nops = (4, 14)
    cases = {'quick': 5000, 'thorough': 120000}
    budget = {'quick': 150, 'thorough': 2400}
    wtoy, wbig = 0.5, 0.15

    def fixed_cases(self, tier, env):
        import random
        rng = random.Random(78)
        out = []
        for kind in ('ws', 'mo', 'ed', 'te'):
            for i in range(6 if tier == 'quick' else 30):
                c = ref.toy_curve(rng, kind, pmax=23)
                out.append({'table': c.to_json()})
        # prime-order curves whose order needs more bits than the field
        k = 0
        while k < (10 if tier == 'quick' else 40):
            c = ref.toy_curve(rng, 'ws', pmax=300, want_prime_order=True)
            if c.n.bit_length() > c.p.bit_length() and c.n < 300:
                out.append({'table': c.to_json()})
                k += 1
        for c in ref.NAMED.values():
            out.append({'curves': [c.name], 'ops': [['init', 0, 0], ['init', 1, 0], ['setz', 0, 0, jp(c.G), 0]] +
                        [x for s in (c.n - 1, c.n, c.n + 1, (1 << (c.n.bit_length() - 1)), (1 << (c.n.bit_length() - 1)) + 1, c.n - 2)
                         for x in (['mul', 1, 0, s, s & 1], ['obs', 1])]})
        return out

    def run(self, case, env):
        if 'table' not in case:
            return super().run(case, env)
        c = Curve.from_json(case['table'])
        pts = c.all_points()
        if len(pts) > 24:
            pts = pts[:6] + [c.G, c.neg(c.G)]
        lines, want = ['reset', curve_cmd(0, c)] + ['pinit %d 0' % i for i in range(3)] + ['finit 0 %x' % c.n], []
        cnt = 0
        for P in pts:
            lines.append('pneu 0 0' if P is None else 'psetz 0 %x %x 0' % P)
            mult = [c.O]
            for _ in range(c.n - 1):
                mult.append(c.add(mult[-1], P))
            for k in range(-c.n - 2, 2 * c.n + 2):
                if k % 3 == 0:
                    lines += ['fsetz 0 %s %x' % (hx(k), c.n), 'pmulf 1 0 0', 'pout 1 0']
                else:
                    lines += ['pmulz 1 0 %s' % hx(k), 'pout 1 0']
                want.append((len(lines) - 1, c.encode(mult[k % c.n], False).hex(), P, k))
                cnt += 1
        rep = env['drv'].batch(lines, timeout=90)
        for i, e, P, k in want:
            got = ok(rep[i])[0]
            if got != e:
                raise Violation('%s: %d * %s = %s, expected %s' % (case['table'], k, P, got, e))
        return {'table_products': cnt}

    def nontrivial(self, case, tags):
        return 'table' in case or tags.get('op_mul', 0) >= 1


class P03(Hist):
    pid = 'P03'
    rule = ('a case is 1-3 curves (some equal but distinct objects, some of different byte length) and a history of 8-24 operations mixing '
            'table set-up, table multiplication with assignments, imports, swaps, negation, in-place and cross-curve overwriting of the '
            'point holding the table, copies, destruction and re-creation; every product is compared with repeated addition of the '
            'point\'s current value; non-trivial: a table multiplication executed, counted separately when the table already existed '
            'before an intervening change')
    weights = {'bmul': 6, 'bset': 3, 'mul': 1, 'set': 2, 'setz': 2, 'swap': 2, 'neg': 1.5, 'add': 1.5, 'dbl': 1, 'sub': 0.7, 'neutral': 0.7,
               'reinit': 0.7, 'cmp': 0.5, 'out': 0.5, 'aff': 0.5, 'badimport': 0.4, 'rand': 0.3, 'cswap': 0.7}
    ncurves = [1, 2, 2, 3]
    nops = (8, 24)
    cases = {'quick': 3000, 'thorough': 60000}
    budget = {'quick': 150, 'thorough': 2400}
    wtoy, wbig = 0.6, 0.15
    maxheavy = 5
    restart_every = 150

    def fixed_cases(self, tier, env):
        out = []
        for c in ref.NAMED.values():
            out.append({'curves': [c.name], 'ops': [['init', 0, 0], ['init', 1, 0], ['setz', 0, 0, jp(c.G), 0]] +
                        [x for s in (c.n - 1, c.n, (1 << (c.n.bit_length() - 1)), (1 << (c.n.bit_length() - 1)) + 1, c.n - 2, 0, 1)
                         for x in (['bmul', 1, 0, s, s & 1], ['obs', 1])]})
        return out

    def nontrivial(self, case, tags):
        return tags.get('op_bmul', 0) >= 1


class P04(Hist):
    pid = 'P04'
    rule = ('a case is 2-4 curves of different forms and fields and a history of 8-30 operations of every kind (group operations, '
            'multiplications with and without tables, assignments, imports, failed imports, swaps, comparisons, exports) over 7 point slots '
            'whose destinations often hold a value of another curve; all points and all curve objects are read back and compared with the '
            'model several times per history; non-trivial: at least one operation whose destination was on another curve')
    weights = {'add': 6, 'sub': 4, 'dbl': 3, 'neg': 2, 'mul': 1.5, 'bmul': 1.5, 'bset': 0.5, 'set': 2, 'setz': 2, 'swap': 1, 'cswap': 1,
               'cmp': 1.5, 'out': 1.5, 'aff': 1.5, 'neutral': 1, 'reinit': 0.5, 'badimport': 1, 'rand': 0.4, 'obsall': 1}
    ncurves = [2, 2, 3, 4]
    nops = (8, 30)
    cases = {'quick': 4500, 'thorough': 90000}
    budget = {'quick': 150, 'thorough': 2400}
    wtoy, wbig = 0.6, 0.2
    maxheavy = 3

    def nontrivial(self, case, tags):
        return tags.get('dest_other_curve', 0) >= 1


CHECKS = {'P01': P01, 'P02': P02, 'P03': P03, 'P04': P04}
