"""F01, F02: field arithmetic against Python integers."""
import ref
from core import CCheck, Violation, Skip, ok

NSLOT = 5


def hx(v):
    return '%x' % v if v >= 0 else '-%x' % -v


def pick_prime(rng, hi2=False):
    r = rng.random()
    if hi2 and r < 0.5:
        return rng.choice(ref.HI2)
    if r < 0.25:
        return rng.choice(ref.SMALL_PRIMES[:120] + [3, 3])
    if r < 0.75:
        return rng.choice(ref.FIELD_PRIMES)
    if r < 0.85:
        c = rng.choice(list(ref.NAMED.values()))
        return rng.choice([c.p, c.n])
    if r < 0.95:
        return rng.choice(ref.BIG)[rng.randrange(2)]
    return rng.choice(ref.HI2)


def pick_int(rng, p, wide=False):
    r = rng.random()
    b = p.bit_length()
    if r < 0.25:
        v = rng.choice([0, 1, 2, 3, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2])
    elif r < 0.45:
        k = rng.randrange(0, b + 1)
        v = (1 << k) + rng.choice([-1, 0, 1])
    elif r < 0.55:
        v = p - (1 << rng.randrange(0, b)) + rng.choice([-1, 0, 1])
    elif r < 0.65:      # long runs of ones / zeros at limb granularity
        v = 0
        for _ in range((b + 63) // 64):
            v = (v << 64) | rng.choice([0, (1 << 64) - 1, 1, 1 << 63, rng.getrandbits(64)])
    else:
        v = rng.randrange(p)
    if wide:
        r = rng.random()
        if r < 0.2:
            v = -v
        elif r < 0.4:
            v += p * rng.choice([1, 2, -1, -2, 1 << 64, rng.getrandbits(rng.choice([8, 64, 300, 2000]))])
        elif r < 0.5:
            v = rng.getrandbits(rng.choice([1, 63, 64, 65, 128, 1024, 2048, 2049, 4096]))
            if rng.random() < 0.3:
                v = -v
        return v
    return v % p


def pick_ui(rng, p):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, 2, 3, 4, 5, 7, 8])
    if r < 0.5:
        return rng.choice([(1 << 64) - 1, (1 << 63), (1 << 63) - 1, (1 << 64) - 2, 1 << 32, (1 << 32) - 1])
    if r < 0.75:
        m = 1 << 64
        return (p * rng.choice([1, 1, 2, 3]) + rng.choice([-2, -1, 0, 1, 2])) % m
    return rng.getrandbits(64)


class F01(CCheck):
    pid = 'F01'
    rule = ('a case is a history of 8-40 field operations over 5 element slots and 1-3 prime moduli of 2..1024 bits, destinations '
            'aliasing operands in all combinations, operands biased to 0, p-1, limb boundaries and word operands near multiples of p; '
            'every destination is read back after every operation and every slot at the end and compared with integer arithmetic; '
            'non-trivial: at least 6 arithmetic operations actually executed and compared')
    cases = {'quick': 60000, 'thorough': 1500000}
    budget = {'quick': 120, 'thorough': 1500}
    assumptions = ['moduli are odd primes of at most 1024 bits', 'operands of one operation share a field', 'GMP is correct']

    def gen(self, rng, env):
        k = rng.choice([1, 1, 1, 2, 3])
        primes = [pick_prime(rng) for _ in range(k)]
        ops = []
        for s in range(NSLOT):
            p = rng.choice(primes)
            ops.append(['finit', s, rng.choice(primes)])
            ops.append(['fsetz', s, pick_int(rng, p, rng.random() < 0.3), p])
        n = rng.randrange(6, 36)
        for _ in range(n):
            o = rng.choice(['add', 'sub', 'mul', 'add', 'sub', 'mul', 'sqr', 'neg', 'addui', 'subui', 'mului', 'powui', 'powz', 'set', 'setz',
                            'setzfp', 'setui', 'setuifp', 'swap', 'cswap', 'cmp', 'cmpui', 'cmpz', 'tst', 'getz', 'clr', 'rawset'])
            d, a, b = rng.randrange(NSLOT), rng.randrange(NSLOT), rng.randrange(NSLOT)
            if rng.random() < 0.3:
                a = d
            if rng.random() < 0.3:
                b = a
            p = rng.choice(primes)
            if o in ('add', 'sub', 'mul'):
                ops.append(['f3', o, d, a, b])
            elif o in ('sqr', 'neg'):
                ops.append(['f2', o, d, a])
            elif o in ('addui', 'subui', 'mului'):
                ops.append(['fui', o[:3], d, a, pick_ui(rng, p)])
            elif o == 'powui':
                ops.append(['fui', 'pow', d, a, rng.choice([0, 1, 2, 3, 4, 5, 17, rng.getrandbits(64)])])
            elif o == 'powz':
                e = pick_int(rng, p, rng.random() < 0.5)
                ops.append(['fpowz', d, a, e if rng.random() < 0.15 else abs(e)])
            elif o == 'set':
                ops.append(['fset', d, a])
            elif o == 'setz':
                ops.append(['fsetz', d, pick_int(rng, p, True), p])
            elif o == 'setzfp':
                ops.append(['fsetzfp', d, pick_int(rng, p, True), a])
            elif o == 'setui':
                ops.append(['fsetui', d, pick_ui(rng, p), p])
            elif o == 'setuifp':
                ops.append(['fsetuifp', d, pick_ui(rng, p), a])
            elif o == 'swap':
                ops.append(['fswap', d, a])
            elif o == 'cswap':
                ops.append(['fcswap', d, a, rng.choice([0, 0, 1, 1, 2, -1, 256, -2147483648])])
            elif o == 'cmp':
                ops.append(['fcmp', a, b])
            elif o == 'cmpui':
                ops.append(['fcmpui', a, rng.choice([pick_ui(rng, p), -1])])     # -1: the slot's own value, when small
            elif o == 'cmpz':
                ops.append(['fcmpz', a, rng.choice([None, None, 'neg', 'plus', 'limb', pick_int(rng, p, True)])])
            elif o == 'tst':
                ops.append(['ftst', a, rng.choice([0, 1, 62, 63, 64, 65, rng.randrange(0, 1100)])])
            elif o == 'getz':
                ops.append(['fgetz', a, pick_int(rng, p, True)])
            elif o == 'clr':
                ops.append(['fclr', d])
                ops.append(['finit', d, p])
                ops.append(['fset', d, a] if a != d else ['fsetz', d, pick_int(rng, p), p])
            elif o == 'rawset':
                # equal-ish operands: same value, neighbours, complements
                ops.append(['like', d, a, rng.choice(['same', 'neg', 'plus1', 'minus1'])])
        return {'ops': ops}

    def run(self, case, env):
        drv = env['drv']
        m = {}          # slot -> (value or None, p)
        lines = ['reset']
        exp = [None]    # expected reply tokens, or None, or 'canary'
        narith = 0
        tags = {}

        def emit(line, e):
            lines.append(line)
            exp.append(e)

        def val(s):
            if s not in m or m[s][0] is None:
                raise Skip('slot %s has no value' % s)
            return m[s]

        def show(s):
            v, p = m[s]
            emit('fget %d' % s, [hx(v), hx(p)])

        def put(s, v, p):
            m[s] = (v % p, p)
            show(s)
        for op in case['ops']:
            o = op[0]
            if o == 'finit':
                if op[1] in m or op[2] < 3:
                    raise Skip('init')
                emit('finit %d %x' % (op[1], op[2]), [])
                m[op[1]] = (None, op[2])
            elif o == 'fclr':
                if op[1] not in m:
                    raise Skip('clr')
                emit('fclr %d' % op[1], [])
                del m[op[1]]
            elif o == 'fsetz' or o == 'fsetui':
                if op[1] not in m or op[3] < 3 or (o == 'fsetui' and not 0 <= op[2] < 1 << 64):
                    raise Skip('set')
                emit('%s %d %s %x' % (o, op[1], hx(op[2]), op[3]), [])
                put(op[1], op[2], op[3])
            elif o in ('fsetzfp', 'fsetuifp'):
                if op[1] not in m or op[3] not in m or (o == 'fsetuifp' and not 0 <= op[2] < 1 << 64):
                    raise Skip('set')
                emit('%s %d %s %d' % (o, op[1], hx(op[2]), op[3]), [])
                put(op[1], op[2], m[op[3]][1])
            elif o == 'like':
                v, p = val(op[2])
                if op[1] not in m:
                    raise Skip('like')
                w = {'same': v, 'neg': -v, 'plus1': v + 1, 'minus1': v - 1}[op[3]] % p
                emit('fsetz %d %x %x' % (op[1], w, p), [])
                put(op[1], w, p)
            elif o == 'fset':
                v, p = val(op[2])
                if op[1] not in m:
                    raise Skip('set')
                emit('fset %d %d' % (op[1], op[2]), [])
                put(op[1], v, p)
            elif o == 'f3':
                (x, p), (y, q) = val(op[3]), val(op[4])
                if p != q or op[2] not in m:
                    continue
                emit('f3 %s %d %d %d' % tuple(op[1:]), [])
                put(op[2], {'add': x + y, 'sub': x - y, 'mul': x * y}[op[1]], p)
                narith += 1
            elif o == 'f2':
                x, p = val(op[3])
                if op[2] not in m:
                    raise Skip('f2')
                emit('f2 %s %d %d' % tuple(op[1:]), ['0'])
                put(op[2], {'sqr': x * x, 'neg': -x}[op[1]], p)
                narith += 1
            elif o == 'fui':
                x, p = val(op[3])
                if op[2] not in m or not 0 <= op[4] < 1 << 64:
                    raise Skip('fui')
                emit('fui %s %d %d %x' % tuple(op[1:]), [])
                u = op[4]
                put(op[2], pow(x, u, p) if op[1] == 'pow' else {'add': x + u, 'sub': x - u, 'mul': x * u}[op[1]], p)
                narith += 1
            elif o == 'fpowz':
                x, p = val(op[2])
                if op[1] not in m:
                    raise Skip('pow')
                if op[3] < 0 and x == 0:
                    continue
                emit('fpowz %d %d %s' % (op[1], op[2], hx(op[3])), [])
                put(op[1], pow(x, op[3], p), p)
                narith += 1
            elif o == 'fswap' or o == 'fcswap':
                (x, p), (y, q) = val(op[1]), val(op[2])
                if p != q:
                    continue
                if o == 'fswap':
                    emit('fswap %d %d' % (op[1], op[2]), [])
                    s = True
                else:
                    if not -1 << 31 <= op[3] < 1 << 31:
                        raise Skip('cswap')
                    emit('fcswap %d %d %d' % (op[1], op[2], op[3]), [])
                    s = op[3] != 0
                if s:
                    m[op[1]], m[op[2]] = (y, p), (x, p)
                show(op[1])
                show(op[2])
                narith += 1
            elif o == 'fcmp':
                (x, p), (y, q) = val(op[1]), val(op[2])
                if p != q:
                    continue
                emit('fcmp %d %d' % (op[1], op[2]), ('sign', x, y))
                narith += 1
            elif o == 'fcmpui':
                x, p = val(op[1])
                u = op[2]
                if u == -1:
                    u = x % (1 << 64)
                if not 0 <= u < 1 << 64:
                    raise Skip('cmpui')
                emit('fcmpui %d %x' % (op[1], u), [str(int(x != u))])
            elif o == 'fcmpz':
                x, p = val(op[1])
                z = {None: x, 'neg': -x, 'plus': x + p, 'limb': x + (1 << (64 * ((p.bit_length() + 63) // 64)))}.get(op[2], op[2])
                if not isinstance(z, int):
                    raise Skip('cmpz')
                emit('fcmpz %d %s' % (op[1], hx(z)), [str(int(x != z))])
                tags['cmpz_eq' if x == z else 'cmpz_ne'] = tags.get('cmpz_eq' if x == z else 'cmpz_ne', 0) + 1
            elif o == 'ftst':
                x, p = val(op[1])
                if not 0 <= op[2] < p.bit_length():
                    continue
                emit('ftst %d %d' % (op[1], op[2]), ['bit', (x >> op[2]) & 1])
            elif o == 'fgetz':
                x, p = val(op[1])
                emit('fgetz %d %s' % (op[1], hx(op[2])), [hx(x)])
            else:
                raise Skip(o)
        for s in sorted(m):
            if m[s][0] is not None:
                show(s)
        rep = drv.batch(lines)
        for i, (l, r, e) in enumerate(zip(lines, rep, exp)):
            if e is None:
                continue
            got = ok(r)
            if isinstance(e, tuple):
                g = int(got[0])
                want = (e[1] > e[2]) - (e[1] < e[2])
                if (g == 0) != (want == 0):
                    raise Violation('%s: compare of %x and %x said %d' % (l, e[1], e[2], g))
            elif e and e[0] == 'bit':
                if (int(got[0]) != 0) != (e[1] != 0):
                    raise Violation('%s: bit test answered %s, expected %d' % (l, got[0], e[1]))
            elif got != e:
                raise Violation('after `%s` ... `%s`: got %s, expected %s' % (lines[i - 1], l, got, e))
        tags['arith_ops'] = narith
        tags['checked_replies'] = len(lines)
        b = max(p.bit_length() for _, p in m.values()) if m else 0
        tags['bits<=64' if b <= 64 else 'bits<=256' if b <= 256 else 'bits<=1024'] = 1
        return tags

    def nontrivial(self, case, tags):
        return tags.get('arith_ops', 0) >= 6


class F02(CCheck):
    pid = 'F02'
    timeout = 8.0
    rule = ('a case is a prime (2..1024 bits; half of them with a high power of two dividing p-1) and 1-6 elements, each inverted and '
            'square-rooted with the destination fresh, in another field, or aliasing the operand; squares, non-squares, 0, +-1 and '
            '2^k-th roots of unity are over-represented; results are checked by multiplying back in Python and existence by Euler\'s '
            'criterion; non-trivial: at least one existing inverse or root was produced and verified; for primes below 64 every '
            'element is enumerated')
    cases = {'quick': 10000, 'thorough': 200000}
    budget = {'quick': 120, 'thorough': 1500}
    assumptions = ['moduli are odd primes of at most 1024 bits', 'GMP is correct']

    def fixed_cases(self, tier, env):
        out = []
        for p in [q for q in range(3, 64 if tier == 'quick' else 600) if ref.is_prime(q)]:
            out.append({'p': p, 'q': 7 if p != 7 else 11, 'ops': [['both', x, x % 3] for x in range(p)]})
        return out

    def gen(self, rng, env):
        p = pick_prime(rng, True)
        q = pick_prime(rng)
        ops = []
        two, t = 0, p - 1
        while t % 2 == 0:
            t //= 2
            two += 1
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            x = pick_int(rng, p)
            if r < 0.4:
                x = x * x % p
            elif r < 0.6:
                # element of the 2-Sylow subgroup times an odd-order element
                z = pow(pick_int(rng, p), t, p)
                z = pow(z, 1 << rng.randrange(0, two + 1), p)
                x = z if rng.random() < 0.5 else z * pow(x, 1 << two, p) % p
            ops.append([rng.choice(['inv', 'sqrt', 'sqrt', 'both']), x, rng.randrange(4)])
        return {'p': p, 'q': q, 'ops': ops}

    def run(self, case, env):
        p, q = case['p'], case['q']
        if p < 3 or q < 3 or not ref.is_prime(p) or not ref.is_prime(q):
            raise Skip('prime')
        lines = ['reset', 'finit 0 %x' % p, 'finit 1 %x' % p, 'finit 2 %x' % q, 'fsetz 1 1 %x' % p, 'fsetz 2 1 %x' % q]
        todo = []
        for op, x, alias in case['ops']:
            for o in (('inv', 'sqrt') if op == 'both' else (op,)):
                x %= p
                d = {0: 0, 1: 1, 2: 2, 3: 3}.get(alias, 0)
                lines.append('fsetz 0 %x %x' % (x, p))
                if d == 3:
                    lines.append('finit 3 %x' % p)
                lines.append('f2 %s %d 0' % (o, d))
                at = len(lines) - 1
                lines.append('fget 0')
                lines.append('fget %d' % d)
                todo.append((o, x, d, at))
                if d == 3:
                    lines.append('fclr 3')
                if d == 2:
                    lines.append('fsetz 2 1 %x' % q)
        rep = env['drv'].batch(lines)
        for l, r in zip(lines, rep):
            if r.startswith('BAD') and not l.startswith('fget'):
                raise Skip(r)
        good = none = 0
        for o, x, d, at in todo:
            st = int(ok(rep[at])[0])
            exists = (x != 0) if o == 'inv' else (ref.legendre(x, p) >= 0)
            if (st == 0) != exists:
                raise Violation('%s of %x mod %x: status %d but %s' % (o, x, p, st, 'it exists' if exists else 'none exists'))
            if d != 0 or not exists:
                got = ok(rep[at + 1])
                if got != [hx(x), hx(p)]:
                    raise Violation('%s of %x mod %x changed its operand to %s' % (o, x, p, got))
            if exists:
                got = [int(t, 16) for t in ok(rep[at + 2])]
                if got[1] != p or not 0 <= got[0] < p:
                    raise Violation('%s of %x mod %x: result %s is not a residue of the field' % (o, x, p, got))
                chk = got[0] * x % p == 1 if o == 'inv' else got[0] * got[0] % p == x
                if not chk:
                    raise Violation('%s of %x mod %x gave %x, which is wrong' % (o, x, p, got[0]))
                good += 1
            else:
                none += 1
        two = ((p - 1) & -(p - 1)).bit_length() - 1
        return {'verified': good, 'refused': none, '2-adicity>=32' if two >= 32 else '2-adicity>=8' if two >= 8 else '2-adicity<8': 1}

    def nontrivial(self, case, tags):
        return tags['verified'] > 0


CHECKS = {'F01': F01, 'F02': F02}
