"""M01: memory safety and leaks; M02: safe-clean; T01: threads."""
import random

import ref
from core import CCheck, Driver, Violation, Skip, Inconclusive, ok
from pmodel import Pool, Machine, pick_point, pick_scalar, small_points, jp, curve_cmd, hx, hb
from p_e import gen_bytes, gen_text
from p_p import Hist
from p_s import pick_key, pick_hashname, pick_msg, digest
from ref import Curve

NC, NP, NF, NH, NSG, NE = 4, 6, 5, 2, 3, 3


def rand_cmd(rng, cs):
    """One random command over few slots; the driver ignores it when its objects are not in a state that allows it."""
    ci = rng.randrange(len(cs))
    c = cs[ci]
    R = rng.randrange
    p, q, s = R(NP), R(NP), R(NP)
    f, g, h = R(NF), R(NF), R(NF)
    if rng.random() < 0.3:
        q = p
    if rng.random() < 0.3:
        g = f
    t = rng.random()
    if t < 0.30:                      # points
        o = rng.choice(['pinit', 'pclr', 'pset', 'psetz', 'psetz', 'psetf', 'pneu', 'paff', 'paffy', 'pout', 'pouts', 'pbytes', 'pbytes', 'pstr', 'pstr',
                        'pswap', 'pcswap', 'pcmp', 'prand'])
        if o in ('pinit', 'pneu', 'prand'):
            return '%s %d %d' % (o, p, ci)
        if o in ('pclr', 'paff', 'paffy'):
            return '%s %d' % (o, p)
        if o in ('pset', 'pswap', 'pcmp'):
            return '%s %d %d' % (o, p, q)
        if o == 'pcswap':
            return '%s %d %d %d' % (o, p, q, R(2))
        if o in ('pout', 'pouts'):
            return '%s %d %d' % (o, p, R(2))
        if o in ('psetz', 'psetf'):
            P = pick_point(c, rng) or c.G
            return '%s %d %x %x %d' % (o, p, P[0], P[1], ci)
        if o == 'pbytes':
            return 'pbytes %d %s %d' % (p, hb(gen_bytes(c, rng)), ci)
        return 'pstr %d %s %d' % (p, gen_text(c, rng).replace('\0', '').encode('latin1').hex() or '.', ci)
    if t < 0.52:
        o = rng.choice(['padd', 'padd', 'psub', 'pdbl', 'pneg', 'pmulz', 'pmulf', 'pbset', 'pbmulz', 'pbmulf'])
        if o in ('padd', 'psub'):
            return '%s %d %d %d' % (o, p, q, s)
        if o in ('pdbl', 'pneg'):
            return '%s %d %d' % (o, p, q)
        if o == 'pbset':
            return 'pbset %d' % p
        if o in ('pmulf', 'pbmulf'):
            return '%s %d %d %d' % (o, p, q, f)
        return '%s %d %d %s' % (o, p, q, hx(pick_scalar(c, rng)))
    if t < 0.70:                      # fields
        m = rng.choice([c.p, c.n, c.p])
        v = rng.choice([0, 1, m - 1, rng.randrange(m), -rng.randrange(m), rng.getrandbits(2100)])
        o = rng.choice(['finit', 'fclr', 'fsetz', 'fsetz', 'fsetzfp', 'fsetui', 'fset', 'f3', 'f2', 'f2', 'fui', 'fpowz', 'fswap', 'fcswap', 'fcmp',
                        'fcmpui', 'fcmpz', 'ftst', 'frand', 'fget', 'fgetz'])
        return {'finit': 'finit %d %x' % (f, m), 'fclr': 'fclr %d' % f, 'fsetz': 'fsetz %d %s %x' % (f, hx(v), m), 'fsetzfp': 'fsetzfp %d %s %d' % (f, hx(v), g),
                'fsetui': 'fsetui %d %x %x' % (f, v & (1 << 64) - 1 if v >= 0 else 5, m), 'fset': 'fset %d %d' % (f, g),
                'f3': 'f3 %s %d %d %d' % (rng.choice(['add', 'sub', 'mul']), f, g, h), 'f2': 'f2 %s %d %d' % (rng.choice(['sqr', 'neg', 'inv', 'sqrt']), f, g),
                'fui': 'fui %s %d %d %x' % (rng.choice(['add', 'sub', 'mul', 'pow']), f, g, rng.getrandbits(rng.choice([1, 8, 64]))),
                'fpowz': 'fpowz %d %d %x' % (f, g, rng.getrandbits(rng.choice([1, 8, 200]))), 'fswap': 'fswap %d %d' % (f, g),
                'fcswap': 'fcswap %d %d %d' % (f, g, R(2)), 'fcmp': 'fcmp %d %d' % (f, g), 'fcmpui': 'fcmpui %d %x' % (f, rng.getrandbits(64)),
                'fcmpz': 'fcmpz %d %s' % (f, hx(v)), 'ftst': 'ftst %d %d' % (f, rng.choice([0, 1, 63, 64, R(1100)])), 'frand': 'frand %d %x' % (f, m),
                'fget': 'fget %d' % f, 'fgetz': 'fgetz %d %x' % (f, rng.getrandbits(1200))}[o]
    if t < 0.78:                      # curves, including unusable ones
        j = R(NC + 1)
        o = rng.choice(['rebuild', 'rebuild', 'bad', 'badtext', 'badname', 'cset', 'cclr', 'ccmp', 'cchk', 'cdump', 'clist'])
        if o == 'rebuild':
            return curve_cmd(j, c)
        v = c.params()[1:8]
        if o == 'bad':
            i = R(7)
            v[i] = rng.choice([0, 1, -1, v[i] + 1, v[i] - 1, 1 << 1030, 2, v[i] * 2])
            bits = c.bits if rng.random() < 0.8 else rng.choice([0, 1, c.bits - 1, 5000])
            return 'cz %d %s %s %d' % (j, rng.choice([c.kind, 'ws', 'mo', 'ed', 'te']), ' '.join(hx(x) for x in v), max(0, bits))
        if o == 'badtext':
            ts = [('0x%x' % x) if x >= 0 else '-0x%x' % -x for x in v]
            if rng.random() < 0.7:
                i = R(7)
                ts[i] = rng.choice(['', 'zz', ts[i] + 'g', '0x', '-', ts[i] + '1', '0'])
            return 'cs %d %s %s %d' % (j, c.kind, ' '.join(x.encode().hex() or '.' for x in ts), c.bits)
        if o == 'badname':
            return 'cn %d %s' % (j, rng.choice(['', 'secp256k', 'Curve2551', 'x' * 300, 'secp256k1', 'E-222']).encode().hex() or '.')
        return {'cset': 'cset %d %d' % (j, ci), 'cclr': 'cclr %d' % j, 'ccmp': 'ccmp %d %d' % (j, ci), 'cdump': 'cdump %d' % j, 'clist': 'clist',
                'cchk': 'cchk %d %s %s' % (j, hx(rng.getrandbits(300)), hx(-rng.getrandbits(1200)))}[o]
    i, k, j = R(NSG), R(NH), R(NE)
    if t < 0.92:
        L = (c.n.bit_length() + 7) // 8
        m = hb(bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 20, 33, 200])))) if rng.random() < 0.95 else '-'
        o = rng.choice(['hnew', 'hclr', 'sign', 'sign', 'sver', 'sver', 'simpb', 'simps', 'sexpb', 'sexps', 'sclr', 'sclr', 'key'])
        if o in ('simpb', 'simps'):
            r, s_ = rng.choice([0, 1, c.n, rng.randrange(c.n), rng.randrange(c.n)]), rng.choice([0, c.n - 1, rng.randrange(c.n), rng.randrange(c.n)])
            b = r.to_bytes(L, 'big') + s_.to_bytes(L, 'big')
            if rng.random() < 0.3:
                b = rng.choice([b[:-1], b + b'x', b'', b[:L]])
            if o == 'simpb':
                return 'simpb %d %d %s' % (i, k, hb(b))
            x = b.hex()
            if rng.random() < 0.3:
                x = rng.choice([x[:-1], x + 'g', 'x' + x[1:], '', x[:-2] + ' 1'])
            return 'simps %d %d %s' % (i, k, x.encode().hex() or '.')
        return {'hnew': 'hnew %d %d %s' % (k, ci, pick_hashname(c, rng)), 'hclr': 'hclr %d' % k, 'sign': 'sign %d %d %d %s' % (i, k, f, m),
                'sver': 'sver %d %d %s' % (i, p, m), 'sexpb': 'sexpb %d' % i, 'sexps': 'sexps %d' % i, 'sclr': 'sclr %d' % i,
                'key': 'fsetz %d %x %x' % (f, rng.randrange(1, c.n), c.n)}[o]
    o = rng.choice(['eenc', 'eenc', 'edec', 'edec', 'eget', 'emk', 'eclr', 'key'])
    return {'eenc': 'eenc %d %d %d' % (j, p, q), 'edec': 'edec %d %d %d' % (p, f, j), 'eget': 'eget %d' % j, 'emk': 'emk %d %d %d' % (j, p, q),
            'eclr': 'eclr %d' % j, 'key': 'fsetz %d %x %x' % (f, rng.randrange(1, c.n), c.n)}[o]


def prologue(rng, cs):
    out = []
    for i, c in enumerate(cs):
        out.append(curve_cmd(i, c))
    for p in range(NP):
        ci = rng.randrange(len(cs))
        c = cs[ci]
        P = pick_point(c, rng)
        out.append('pinit %d %d' % (p, rng.randrange(len(cs))))
        out.append('pneu %d %d' % (p, ci) if P is None else 'psetz %d %x %x %d' % (p, P[0], P[1], ci))
    for f in range(NF):
        c = cs[f % len(cs)]
        m = c.n if f < 3 else c.p
        out += ['finit %d %x' % (f, m), 'fsetz %d %x %x' % (f, rng.randrange(1, m), m)]
    for k in range(NH):
        ci = rng.randrange(len(cs))
        out.append('hnew %d %d %s' % (k, ci, pick_hashname(cs[ci], rng)))
    rng.shuffle(out)
    out.sort(key=lambda l: {'c': 0, 'p': 1 if l.startswith('pi') else 2, 'f': 1 if l.startswith('fi') else 2, 'h': 3}[l[0]])
    return out


class M01(CCheck):
    pid = 'M01'
    rule = ('a case is a history of 40-160 calls over 2-4 curves and a few slots per object type (fields, curves, points, schemes, signatures, '
            'ciphertexts): every public operation with aliased and re-targeted destinations, failing imports, constructions and '
            'decryptions, curves destroyed and rebuilt when nothing refers to them any more, then destruction of everything; calls whose '
            'objects are not in a valid state are skipped by the driver. Built with AddressSanitizer and UndefinedBehaviorSanitizer, under '
            'valgrind, and plainly with junk-filled allocations and counted live memory: the same history is run four times and the '
            'memory in use after it must be the same after the second, third and fourth run; non-trivial: at least 30 executed calls')
    variants = ['asan', 'asan', 'plain', 'asan', 'vg', 'plain', 'asan', 'plain']
    weight = {'vg': 0.05}
    cases = {'quick': 6000, 'thorough': 160000}
    budget = {'quick': 130, 'thorough': 2400}
    restart_every = 60
    timeout = 30.0
    nondet = True
    assumptions = ['a call is valid when its objects are initialised, hold values where they are read, lie on one curve where the interface says so, and '
                   'the curve objects they refer to are alive', 'allocation does not fail']

    def worker_init(self, env):
        super().worker_init(env)
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'], ntoy=24, nbig=8, bigmax=530)

    def imports(self, rng, pool):
        """imports only, on curves of every form including those whose formulas have poles"""
        cs = [pool.pick(rng, 0.7, 0.15), ref.incomplete_curve(rng, rng.choice([None] + [q for q, _ in ref.BIG]))]
        cmds = [curve_cmd(i, c) for i, c in enumerate(cs)] + ['pinit %d %d' % (p, p % 2) for p in range(4)] + ['pneu %d %d' % (p, p % 2) for p in range(4)]
        for _ in range(rng.randrange(20, 60)):
            i, p = rng.randrange(2), rng.randrange(4)
            c = cs[i]
            o = rng.choice(['pbytes', 'pbytes', 'pbytes', 'pstr', 'pout', 'pouts', 'psetz', 'pset', 'paff', 'cchk'])
            P = c.rand_point(rng)
            cmds.append({'pbytes': lambda: 'pbytes %d %s %d' % (p, hb(gen_bytes(c, rng)), i),
                         'pstr': lambda: 'pstr %d %s %d' % (p, gen_text(c, rng).replace('\0', '').encode('latin1').hex() or '.', i),
                         'pout': lambda: 'pout %d %d' % (p, rng.randrange(2)), 'pouts': lambda: 'pouts %d %d' % (p, rng.randrange(2)),
                         'psetz': lambda: 'psetz %d %x %x %d' % (p, P[0], P[1], i) if P else 'paff %d' % p, 'pset': lambda: 'pset %d %d' % (p, rng.randrange(4)),
                         'paff': lambda: 'paff %d' % p, 'cchk': lambda: 'cchk %d %s %s' % (i, hx(rng.getrandbits(300)), hx(-rng.getrandbits(300)))}[o]())
        return {'cmds': cmds}

    def gen(self, rng, env):
        pool = env['pool']
        if rng.random() < 0.15:
            return self.imports(rng, pool)
        cs = [pool.pick(rng, 0.75, 0.1) for _ in range(rng.randrange(2, NC + 1))]
        if rng.random() < 0.4:
            cs[-1] = cs[0]
        big = max(c.p.bit_length() for c in cs) > 40
        cmds = prologue(rng, cs)
        for _ in range(rng.randrange(30, 90 if big else 160)):
            cmds.append(rand_cmd(rng, cs))
        return {'cmds': cmds}

    def run(self, case, env):
        drv = env['drv']
        cmds = [l for l in case['cmds']]
        v = env['variant']
        tags = {}
        n = 0
        runs = 4 if v == 'plain' else 1
        mem = []
        for k in range(runs):
            rep = drv.batch(['reset'] + cmds + ['reset', 'mem'])
            if k == 0:
                for l, r in zip(cmds, rep[1:]):
                    if r.startswith('ok'):
                        n += 1
                        o = l.split(' ', 1)[0]
                        tags[o] = tags.get(o, 0) + 1
                        if '!OVERRUN' in r:
                            raise Violation('%s wrote past the announced length' % l)
            mem.append(ok(rep[-1]))
        if runs == 4 and not (mem[1] == mem[2] == mem[3]):
            b = [int(m[0]) for m in mem[1:]]
            y = [int(m[1]) for m in mem[1:]]
            if (b[0] < b[1] < b[2]) or (y[0] < y[1] < y[2]):
                raise Violation('memory in use grows with every repetition of the history: %s blocks, %s bytes' % (b, y), kind='leak')
            # not monotone: only the code's own randomness can differ between runs; look at more repetitions
            more = [ok(drv.batch(['reset'] + cmds + ['reset', 'mem'])[-1]) for _ in range(12)]
            b = [int(m[0]) for m in more]
            if b[-1] - b[0] >= 3 and all(x <= z for x, z in zip(b, b[1:])):
                raise Violation('memory in use grows with repetitions of the history: %s blocks' % b, kind='leak')
        tags['executed'] = n
        return tags

    def nontrivial(self, case, tags):
        return tags.get('executed', 0) >= 30

    def shrinks(self, case):
        n = len(case['cmds'])
        s = n // 2
        while s:
            for i in range(0, n, s):
                yield {'cmds': case['cmds'][:i] + case['cmds'][i + s:]}
            s //= 2


# ---------------------------------------------------------------- M02
class M02(Hist):
    pid = 'M02'
    rule = ('a case is either a history of point, field, curve, signature, encryption and random operations, or a sequence of raw '
            'allocate/grow/shrink/free calls through the big-number layer\'s memory functions (sizes 1 byte to 70 kB around powers of two '
            'and allocator granules, blocks filled with a pattern), executed after enabling the cleaning functions in a process whose '
            'system allocator is intercepted: every block the layer hands back is scanned byte by byte over its whole usable size and must be '
            'zero; results of the history are compared with the model and reallocated blocks keep their contents; non-trivial: '
            'at least 10 blocks were handed back')
    variants = ['plain']
    weights = {'add': 4, 'sub': 1, 'dbl': 2, 'neg': 1, 'mul': 2, 'bmul': 1.5, 'bset': 0.5, 'set': 1, 'setz': 2, 'swap': 0.5, 'cmp': 1, 'out': 2, 'aff': 2,
               'reinit': 1, 'rand': 0.5, 'badimport': 0.5}
    cases = {'quick': 6000, 'thorough': 120000}
    budget = {'quick': 120, 'thorough': 1800}
    restart_every = 60
    wtoy, wbig = 0.4, 0.3
    assumptions = ['enabling happens before any other library use in the process (the functions are process-wide)',
                   'only blocks freed through the big-number layer\'s memory functions are judged']

    def worker_init(self, env):
        super().worker_init(env)
        env['on'] = False

    def gen(self, rng, env):
        r = rng.random()
        if r < 0.45:
            ops = []
            for _ in range(rng.randrange(10, 60)):
                i = rng.randrange(12)
                sz = rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 500, 1023, 1024, 1032, 1033, 4095, 4096,
                                 4097, rng.randrange(1, 300), rng.randrange(1, 5000), 70000, 140000])
                ops.append([rng.choice(['ga', 'gr', 'gr', 'gf']), i, sz, rng.choice([0, 255, 1, 0x5a, 128])])
            return {'raw': ops}
        if r < 0.6:
            cs = [env['pool'].pick(rng, 0.6, 0.2) for _ in range(2)]
            return {'cmds': prologue(rng, cs) + [rand_cmd(rng, cs) for _ in range(rng.randrange(20, 80))]}
        return super().gen(rng, env)

    def enable(self, env):
        if not env['on']:
            ok(env['drv'].batch(['safeclean'])[0])
            env['on'] = True

    def audit(self, env, what):
        d, n, sz, off = [int(x) for x in ok(env['drv'].batch(['reset', 'dirty'])[1])]
        if d:
            raise Violation('%s: %d of %d blocks handed back to the system allocator still held data (first: usable size %d, first non-zero byte at %d)' % (
                what, d, n, sz, off))
        return n

    def run(self, case, env):
        self.enable(env)
        if 'raw' in case:
            lines, live = [], {}
            for o, i, sz, pat in case['raw']:
                if o == 'ga' and i not in live:
                    live[i] = sz
                    lines.append('ga %d %d %d' % (i, sz, pat))
                elif o == 'gr' and i in live:
                    live[i] = sz
                    lines.append('gr %d %d %d' % (i, sz, pat))
                elif o == 'gf' and i in live:
                    del live[i]
                    lines.append('gf %d' % i)
            lines += ['gf %d' % i for i in sorted(live)]
            if not lines:
                raise Skip('empty')
            for l, r in zip(lines, env['drv'].batch(lines)):
                t = ok(r)
                if l.startswith('gr') and t != ['1']:
                    raise Violation('%s: a resized block lost its contents' % l)
            n = self.audit(env, 'raw allocations')
            return {'raw': 1, 'blocks': n}
        if 'cmds' in case:
            env['drv'].batch(['reset'] + case['cmds'] + ['reset'])
            return {'calls': 1, 'blocks': self.audit(env, 'history')}
        tags = super().run(case, env)
        tags['blocks'] = self.audit(env, 'history')
        return tags

    def nontrivial(self, case, tags):
        return tags.get('blocks', 0) >= 10

    def shrinks(self, case):
        for k in ('raw', 'cmds'):
            if k in case:
                n = len(case[k])
                s = n // 2
                while s:
                    for i in range(0, n, s):
                        yield {k: case[k][:i] + case[k][i + s:]}
                    s //= 2
                return
        yield from super().shrinks(case)



# ---------------------------------------------------------------- T01
class T01(Hist):
    pid = 'T01'
    rule = ('a case is 2-8 threads, each with its own objects and its own history (point operations and multiplications, field arithmetic '
            'in fresh prime fields, curve construction and listing, signatures, encryptions, random draws), released together by a '
            'barrier; in most cases several threads use the same curve parameters (separate objects), and a quarter of the cases are the '
            'very first library use of the process; every result of every thread is compared with the sequential model, signatures and '
            'ciphertexts with the reference; runs under ThreadSanitizer, AddressSanitizer and plainly (repeated with live memory '
            'counted); non-trivial: at least two threads with results compared')
    variants = ['t-tsan', 't-plain', 't-tsan', 't-asan']
    weights = {'add': 4, 'sub': 1, 'dbl': 2, 'neg': 1, 'mul': 1.5, 'bmul': 1.5, 'bset': 0.5, 'set': 1, 'setz': 2, 'swap': 0.5, 'cmp': 1, 'out': 2, 'aff': 2,
               'reinit': 1, 'rand': 0.7}
    cases = {'quick': 1600, 'thorough': 40000}
    budget = {'quick': 170, 'thorough': 2400}
    restart_every = 4
    timeout = 40.0
    nondet = True
    nops = (4, 16)
    maxheavy = 2
    wtoy, wbig = 0.75, 0.1
    assumptions = ['threads share no object; the library is compiled and linked as documented', 'schedules are those the operating system produces '
                   'after a barrier; ThreadSanitizer judges unordered accesses in the executed code']

    def make_pool(self, rng):
        return Pool(rng, ntoy=40, nbig=8, bigmax=300)

    def gen(self, rng, env):
        nt = rng.choice([2, 2, 3, 4, 8])
        same = rng.random() < 0.6
        th = []
        base = super().gen(rng, env)
        for t in range(nt):
            if same:
                # the same curves and history on separate objects, different extras
                case = base if rng.random() < 0.5 else dict(super().gen(rng, env), curves=base['curves'])
                try:
                    m = Machine([Curve.from_json(j) for j in case['curves']])
                    for op in case['ops']:
                        m.step(op)
                except (Skip, KeyError, IndexError):
                    case = base
            else:
                case = super().gen(rng, env)
            ex = []
            for _ in range(rng.randrange(0, 7)):
                k = rng.choice(['f', 'f', 's', 'e', 'z', 'l'])
                if k == 'f':
                    p = rng.choice(ref.SMALL_PRIMES) if rng.random() < 0.6 else rng.choice(ref.FIELD_PRIMES)
                    ex.append(['f', p, rng.randrange(p), rng.randrange(1, p) if p > 1 else 0])
                elif k in ('s', 'e'):
                    ex.append([k, rng.getrandbits(200) + 1, rng.getrandbits(60)])
                else:
                    ex.append([k])
            th.append({'curves': case['curves'], 'ops': case['ops'], 'ex': ex, 'first': rng.random() < 0.5})
        if same:
            prime = rng.choice(ref.SMALL_PRIMES + ref.FIELD_PRIMES)
            for x in th:
                x['ex'].insert(0, ['f', prime, rng.randrange(prime), rng.randrange(1, prime)])
        return {'threads': th}

    def extras(self, t, cs, lines, exp):
        """append commands on slots the machine does not use; exp[i] = checker"""
        def put(l, e=None):
            lines.append(l)
            exp[len(lines) - 1] = e
        c = cs[0]
        for j, x in enumerate(t['ex']):
            if x[0] == 'f':
                p, a, b = x[1], x[2], x[3]
                a, b = a % p, b % p
                put('finit 10 %x' % p)
                put('fsetz 10 %x %x' % (a, p))
                put('finit 11 %x' % p)
                put('fsetz 11 %x %x' % (b, p))
                put('f3 mul 10 10 11')
                put('fget 10', [hx(a * b % p), hx(p)])
                if b:
                    put('f2 inv 11 11', ['0'])
                    put('fget 11', [hx(ref.inv(b, p)), hx(p)])
                put('fclr 10')
                put('fclr 11')
            elif x[0] == 's' and c.n > 1 << 40:
                d = x[1] % c.n or 1
                Q = c.mul(c.G, d)
                put('hnew 5 0 sha256', ['0'])
                put('finit 12 %x' % c.n)
                put('fsetz 12 %x %x' % (d, c.n))
                put('pinit 55 0')
                put('psetz 55 %x %x 0' % Q)
                m = b'%d' % x[2]
                put('sign 5 5 12 %s' % m.hex(), ('sig', c, Q, m))
                put('sver 5 55 %s' % m.hex(), ['0'])
                put('sclr 5')
                put('hclr 5')
                put('fclr 12')
                put('pclr 55')
            elif x[0] == 'e':
                d = x[1] % c.n or 1
                Q = c.mul(c.G, d)
                put('finit 12 %x' % c.n)
                put('fsetz 12 %x %x' % (d, c.n))
                put('pinit 55 0')
                put('psetz 55 %x %x 0' % Q)
                put('eenc 5 55 55', ['0'])
                put('edec 56 12 5', ['0'])
                put('pcmp 55 56', ['0'])
                put('eclr 5')
                put('pclr 55')
                put('pclr 56')
                put('fclr 12')
            elif x[0] == 'z':
                put('zrand %x 3' % (1 << 200), ('rand',))
            elif x[0] == 'l':
                put('clist', ('list',))

    def run(self, case, env):
        drv = env['drv']
        all_lines, jobs = [], []
        for ti, t in enumerate(case['threads'][:15]):
            cs = [Curve.from_json(j) for j in t['curves']]
            m = Machine(cs)
            for op in t['ops']:
                m.step(op)
            m.finish()
            xl, xe = ['reset'] + [curve_cmd(i, c) for i, c in enumerate(cs)], {}
            self.extras(t, cs, xl, xe)
            base = len(all_lines)
            if t['first']:
                all_lines += ['%d %s' % (ti, l) for l in xl + m.lines]
                jobs.append((cs, base, xl, xe, base + len(xl), m))
            else:
                all_lines += ['%d %s' % (ti, l) for l in m.lines + xl]
                jobs.append((cs, base + len(m.lines), xl, xe, base, m))
        runs = 4 if env['variant'] == 't-plain' else 1
        mem = []
        rnd = []
        for _ in range(runs):
            rep = drv.batch(all_lines)
            for cs, xb, xl, xe, mb, m in jobs:
                m.check(None, rep[mb:mb + len(m.lines)])
                for i, e in xe.items():
                    if e is None:
                        ok(rep[xb + i])
                        continue
                    g = ok(rep[xb + i])
                    if isinstance(e, list):
                        if g != e:
                            raise Violation('%s -> got %s, expected %s' % (xl[i], g, e))
                    elif e[0] == 'sig':
                        if g[0] != '0' or not ref.ecdsa_verify(e[1], e[2], digest('sha256', e[3]), int(g[1], 16), int(g[2], 16)):
                            raise Violation('%s -> %s is not a valid signature' % (xl[i], g))
                        rnd.append(g[1])
                    elif e[0] == 'rand':
                        rnd += g
                    elif e[0] == 'list':
                        if sorted(g) != sorted(ref.NAMED) and len(g) != len(ref.NAMED):
                            raise Violation('curve list %s' % g)
            mem.append([int(x) for x in ok(drv.batch(['0 mem'])[0])])
        if len(set(rnd)) != len(rnd):
            raise Violation('two threads obtained the same random value')
        if runs == 4:
            b = [x[0] for x in mem[1:]]
            if b[0] < b[1] < b[2]:
                more = []
                for _ in range(8):
                    drv.batch(all_lines)
                    more.append(int(ok(drv.batch(['0 mem'])[0])[0]))
                if all(x < y for x, y in zip(more, more[1:])):
                    raise Violation('memory in use grows with every repetition: %s blocks' % (b + more), kind='leak')
        return {'threads': len(jobs), 'lines': len(all_lines), 'random_values': len(rnd)}

    def nontrivial(self, case, tags):
        return tags.get('threads', 0) >= 2

    def shrinks(self, case):
        th = case['threads']
        for i in range(len(th)):
            if len(th) > 1:
                yield {'threads': th[:i] + th[i + 1:]}
        for i, t in enumerate(th):
            for k in ('ops', 'ex'):
                n = len(t[k])
                s = n // 2
                while s:
                    for j in range(0, n, s):
                        yield {'threads': th[:i] + [dict(t, **{k: t[k][:j] + t[k][j + s:]})] + th[i + 1:]}
                    s //= 2


CHECKS = {'M01': M01, 'M02': M02, 'T01': T01}
