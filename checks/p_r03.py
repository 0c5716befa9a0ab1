"""R03: randomness as users of the Python extension, the Go package and the command-line tools obtain it."""
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile

import ref
import stats
from core import Check, Violation, Skip, HarnessError, Driver, VERIF
from p_o import go_ext, go_env, cargs, bx
from p_r import S04, R01, Dlog, smooth_curve, counting_toy
from p_s import valid_nonces, digest
from p_x import CliCheck, cli_tools, priv_file, pub_file, unwrap, PRIV, MSG, EG, SIG, curve_tuple
from p_y import py_ext, py_env, curve_expr, hash_expr, hx
from ref import Curve

HASHES = ['sha256', 'sha512', '20', '32', '64']
# draws made by parent and children of a fork; each answers lists of (kind, hexadecimal value)
PYFORK = '''
import os, pickle, struct
def draw(kinds):
    r = []
    for k in kinds:
        if k == 'f': r.append((k, '%x' % int(FieldElement.urandom(P))))
        elif k == 'p': r.append((k, ECPoint.urandom(cv).uncompressed().hex()))
        elif k == 's': r.append((k, ss.Sign(D, b'm').AsBytes().hex()))
        else:
            e = ECElgamalCiphertext.encrypt(Q, G)
            r.append((k, e.C.uncompressed().hex()))
    return r
def prog(t):
    """t = [kinds, [children...], kinds]"""
    a = draw(t[0])
    kids = []
    for c in t[1]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                b = pickle.dumps(prog(c))
                os.write(w, b)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    a = a + draw(t[2])
    out = [a]
    for pid, r in kids:
        b = b''
        while True:
            x = os.read(r, 65536)
            if not x: break
            b += x
        os.close(r)
        os.waitpid(pid, 0)
        out += pickle.loads(b)
    return out
'''


class R03(Check):
    pid = 'R03'
    rule = ('a case is a batch of draws made through the Python extension, the Go package or the command-line tools: random field elements (small counted fields, '
            'fields up to 1024 bits), random points (toy groups counted completely, groups of smooth order with recovered logarithms), nonces of signatures and '
            'ephemeral scalars of encryptions recovered as in S04, keys made by the key generator, message nonces of file encryption; programs of nested os.fork '
            'in Python, several goroutines drawing at once in Go, one process per draw for the tools; every value is range-checked, per source the distribution '
            '(leading part, low bits, residues, single bits, consecutive pairs) is tested over the whole run, and no long value may repeat in any process; '
            'non-trivial: at least 10 values')
    variants = ['plain']
    cases = {'quick': 2200, 'thorough': 60000}
    budget = {'quick': 80, 'thorough': 1500}
    restart_every = 40
    nondet = True
    timeout = 60
    assumptions = ['/dev/urandom is a sound source', 'a bias is observable if a chi-square test on the sample sizes listed exceeds z = 7']

    def setup(self, tier):
        return {'ext': {'plain': py_ext('plain')}, 'go': {'plain': go_ext('plain')}, 'cli': {'plain': cli_tools('plain')}}

    def worker_init(self, env):
        if 'toys' not in env:
            r = random.Random(4244)       # the same in every worker: their counts add up
            env['toys'] = [counting_toy(r, k, lo, hi) for k, lo, hi in (('ws', 8, 30), ('mo', 30, 128), ('ed', 20, 140), ('te', 20, 140), ('ws', 200, 250), ('ws', 258, 340))]
            env['smooth'] = []
            for k, b in (('ws', 140), ('mo', 264)):
                c = smooth_curve(r, b, k)
                env['smooth'].append((c, Dlog(c, c.factors)))
            env['fields'] = [3, 5, 7, 11, 13, 127, 131, 193, 251, 257, 509, 521] + [p for p in ref.FIELD_PRIMES if p >> 10][::2] + [c.n for c in ref.NAMED.values()][::4]
        b = env['built']
        env['py'] = Driver([sys.executable, '-I', os.path.join(VERIF, 'drivers', 'pydrv.py'), b['ext']['plain']], timeout=60, env=py_env('plain', b['ext']['plain']))
        env['gd'] = Driver([b['go']['plain'], '100'], timeout=60, env=go_env('plain'))
        env['dir'] = tempfile.mkdtemp(prefix='r03-')
        env['cli'] = CliCheck()

    def worker_done(self, env):
        for k in ('py', 'gd'):
            if k in env:
                env[k].stop()
        if 'dir' in env:
            shutil.rmtree(env['dir'], ignore_errors=True)

    # ------------------------------------------------------------ generation
    def gen(self, rng, env):
        r = rng.random()
        v = {'v': rng.randrange(1 << 30)}
        if r < 0.1:
            return dict(v, via='py', op='fork', c=rng.choice(['secp256k1', 'Curve25519', 'E-222', 'M-221']), t=self.tree(rng, 0), d=rng.getrandbits(200) + 2)
        if r < 0.16:
            return dict(v, via='go', op='par', w=rng.choice([2, 4, 8]), n=rng.choice([5, 20]), k=rng.choice("fpse"), c=rng.choice(['secp256k1', 'Curve25519', 'E-222', 'M-221']),
                        d=rng.getrandbits(200) + 2)
        if r < 0.3:
            op = rng.choice(['key', 'key', 'sign', 'sign', 'eg', 'ecdh'])
            return dict(v, via='cli', op=op, c=rng.choice(list(ref.NAMED)), s=rng.randrange(2), d=rng.getrandbits(100) + 2, n=25)
        via = rng.choice(['py', 'go'])
        op = rng.choice(['f', 'f', 'p', 'p', 'sp', 'sign', 'sign', 'nsign', 'elg', 'selg'])
        c = {'f': rng.choice(env['fields']), 'p': rng.randrange(len(env['toys'])), 'sign': rng.randrange(len(env['toys'])), 'elg': rng.randrange(len(env['toys'])),
             'sp': rng.randrange(2), 'selg': rng.randrange(2), 'nsign': rng.choice(list(ref.NAMED))}[op]
        return dict(v, via=via, op=op, c=c, d=rng.getrandbits(100) + 2, hash=rng.choice(HASHES), n={'f': 300, 'p': 300, 'sign': 300, 'elg': 300, 'sp': 40, 'selg': 30, 'nsign': 30}[op])

    def tree(self, rng, depth):
        ks = lambda: ''.join(rng.choice('ffpse') for _ in range(rng.randrange(0 if depth else 1, 4)))        # noqa: E731
        n = rng.choice([1, 2, 3]) if depth == 0 else rng.choice([0, 0, 1]) if depth < 3 else 0
        k = rng.choice('fpse')
        t = [ks(), [], k + ks()]
        for _ in range(n):
            s = self.tree(rng, depth + 1)
            s[0] = k + s[0]
            t[1].append(s)
        return t

    def fixed_cases(self, tier, env):
        rng = random.Random(85)
        out = []
        for via in ('py', 'go'):
            for p in env['fields']:
                for _ in range(2 if p >> 10 else 3):
                    out.append({'via': via, 'op': 'f', 'c': p, 'n': 300, 'v': 1})
            for op, cs, n in (('p', range(len(env['toys'])), 300), ('sign', range(len(env['toys'])), 300), ('elg', range(len(env['toys'])), 300), ('sp', range(2), 40), ('selg', range(2), 30),
                              ('nsign', list(ref.NAMED), 30)):
                for c in cs:
                    for _ in range(5 if op in ('sp', 'selg') else 2):
                        out.append({'via': via, 'op': op, 'c': c, 'n': n, 'v': rng.randrange(1 << 30), 'd': rng.getrandbits(100) + 2, 'hash': rng.choice(HASHES)})
        for c in ref.NAMED:
            for op in ('key', 'sign'):
                out.append({'via': 'cli', 'op': op, 'c': c, 's': 0, 'd': rng.getrandbits(100) + 2, 'n': 25, 'v': 1})
        for s in range(2):
            for op in ('eg', 'ecdh'):
                for _ in range(4):
                    out.append({'via': 'cli', 'op': op, 'c': 'secp256k1', 's': s, 'd': rng.getrandbits(100) + 2, 'n': 25, 'v': 1})
        rng.shuffle(out)
        return out

    # ------------------------------------------------------------ execution
    def pyc(self, env, *cmds):
        out = []
        for r in env['py'].batch([json.dumps(c) for c in cmds]):
            r = json.loads(r)
            if r and r[0] == 'BAD':
                raise HarnessError('driver: %r' % (cmds,))
            if r and r[0] == '!':
                raise Violation('Python call fails with %s: %r' % (r[1:], cmds))
            out.append(r)
        return out

    def goc(self, env, lines):
        out = env['gd'].batch(lines)
        for l, r in zip(lines, out):
            if r.startswith('BAD'):
                raise HarnessError('driver: %s: %s' % (l, r))
            if r.startswith('!') or r.startswith('ARGMOD') or r == 'nil' or r == 'E':
                raise Violation('Go call fails: %s: %s' % (l, r))
        return out

    def run(self, case, env):
        return getattr(self, 'via_' + case['via'])(case, env, random.Random(case['v']), env['stats'])

    def field_values(self, st, name, p, vals):
        for v, q in vals:
            if q != p or not 0 <= v < p:
                raise Violation('%s: random field element %x of field %x is not in [0, %x)' % (name, v, q, p))
        stats.Acc(st.setdefault('draw', {})).add('%s-field-%s' % (name, p if p < 1 << 20 else '%d-bit-%x' % (p.bit_length(), p % 65537)), 0, p, [v for v, _ in vals])
        return {'values': len(vals)}

    def logs(self, what, c, dl, encs):
        if dl is None:
            tab, P = {}, c.O
            for i in range(c.n):
                tab[P] = i
                P = c.add(P, c.G)
        out = []
        for b in encs:
            P = c.decode(bytes.fromhex(b))
            P = P[1] if isinstance(P, tuple) and len(P) and P[0] == c.EITHER else P
            if P == c.REJECT:
                raise Violation('%s: %s is not a point of the curve' % (what, b))
            k = dl.log(P) if dl else tab.get(P)
            if k is None:
                raise Violation('%s: %s is outside the group of the generator' % (what, b))
            out.append(k)
        return out

    def points(self, st, name, c, dl, encs):
        ks = self.logs(name, c, dl, encs)
        stats.Acc(st.setdefault('draw', {})).add(('points-toy-%s-%s-%d' if dl is None else 'points-smooth-%s-%s-%d') % (name, c.kind, c.n), 0, c.n, ks)
        return {'values': len(ks)}

    def ephemerals(self, st, name, c, dl, d, encs):
        ks = self.logs(name, c, dl, encs)
        for k in ks:
            if not k:
                raise Violation('%s: the ephemeral scalar of an encryption is zero' % name)
            if dl and k in (d, c.n - d, 1, 2):
                raise Violation('%s: the ephemeral scalar %x equals the key or is trivial' % (name, k))
        if dl and len(set(ks)) != len(ks):
            raise Violation('%s: an ephemeral scalar repeats within %d encryptions' % (name, len(ks)))
        stats.Acc(st.setdefault('nonce', {})).add('%s-elgamal-%s-%d' % (name, c.kind, c.n), 1, c.n, ks)
        return {'values': len(ks)}

    def nonces(self, st, name, c, d, hs, sigs):
        """sigs: list of (message, encoded signature)"""
        L = (c.n.bit_length() + 7) // 8
        toy = c.n < 5000
        vals = []
        for m, b in sigs:
            b = bytes.fromhex(b)
            r, s = int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big')
            if len(b) != 2 * L or not 0 < s < c.n or not 0 < r < c.n:
                raise Violation('%s: signature %s of %d bytes' % (name, b.hex(), len(b)))
            e = ref.hash_to_int(digest(hs, m), c.n)
            k = (e + r * d) * ref.inv(s, c.n) % c.n
            if k == 0 or not toy and k in (d, c.n - d, e % c.n, -e % c.n, 1, 2, c.n - 1):
                raise Violation('%s d=%x: the nonce %x behind a signature is zero, trivial, the key or the digest' % (name, d, k))
            vals.append(k)
        if not toy:
            if len(set(vals)) != len(vals):
                raise Violation('%s: a nonce repeats within %d signatures' % (name, len(vals)))
            stats.Acc(st.setdefault('nonce', {})).add(name, 1, c.n, vals)
        else:
            ks = valid_nonces(c, d, e % c.n)
            for k in vals:
                if k not in ks:
                    raise Violation('%s d=%x: the nonce %x admits no signature' % (name, d, k))
            x = st.setdefault('toy', {}).setdefault(name, {'lo': '1', 'hi': str(c.n), 'n': 0, 'pairs': 0, 'all': [0] * (c.n - 1), 'exp': [0.0] * (c.n - 1)})
            x['n'] += len(vals)
            for k in vals:
                x['all'][k - 1] += 1
            for k in ks:
                x['exp'][k - 1] += len(vals) / float(len(ks))
        return {'values': len(vals)}

    def toy_message(self, c, d, hs, rng):
        for _ in range(60):
            m = bytes(rng.getrandbits(8) for _ in range(8))
            if len(valid_nonces(c, d, ref.hash_to_int(digest(hs, m), c.n) % c.n)) * 2 > c.n:
                return m
        raise Skip('no digest')

    def curve(self, case, env):
        op = case['op']
        if op == 'f':
            return None, None, 0
        if op in ('sp', 'selg'):
            c, dl = env['smooth'][case['c']]
        elif op == 'nsign':
            c, dl = ref.NAMED[case['c']], None
        else:
            c, dl = env['toys'][case['c']], None
        return c, dl, case['d'] % c.n or 1

    # Python
    def via_py(self, case, env, rng, st):
        op, n = case['op'], case['n'] if 'n' in case else 0
        if op == 'fork':
            return self.forks(case, env, rng, st)
        c, dl, d = self.curve(case, env)
        if op == 'f':
            p = case['c']
            r = self.pyc(env, ['n'], ['e', None, '[x for x in (FieldElement.urandom(%d) for _ in range(%d))]' % (p, n)])[1]
            return self.field_values(st, 'py', p, [(int(x[1], 16), int(x[3], 16)) for x in r[1:]])
        setup = ['x', None, 'cv = %s' % curve_expr(c, 'param' if rng.random() < 0.3 else 'auto')]
        if op in ('p', 'sp'):
            r = self.pyc(env, ['n'], setup, ['e', None, '[ECPoint.urandom(cv).uncompressed() for _ in range(%d)]' % n])[2]
            return self.points(st, 'py', c, dl, [x[1] for x in r[1:]])
        Q = c.mul_int(c.G, d)
        if op in ('elg', 'selg'):
            if Q == c.O:
                raise Skip('Q')
            r = self.pyc(env, ['n'], setup, ['x', None, 'Q = ECPoint(cv, (%d, %d)); M = ECPoint(cv, (%d, %d))' % (Q + c.G)],
                         ['e', None, '[ECElgamalCiphertext.encrypt(Q, M).C.uncompressed() for _ in range(%d)]' % n])[3]
            return self.ephemerals(st, 'py', c, dl, d, [x[1] for x in r[1:]])
        hs = '8' if op == 'sign' else case['hash']
        m = self.toy_message(c, d, hs, rng) if op == 'sign' else bytes(rng.getrandbits(8) for _ in range(9))
        key = rng.choice(['%d' % d, 'FieldElement(%d, %d)' % (d, c.n)])
        r = self.pyc(env, ['n'], setup, ['x', None, 'h = %s; ss = ECDSASignatureScheme(cv, h)' % hash_expr(hs)],
                     ['e', None, '[ss.Sign(%s, %r).AsBytes() for _ in range(%d)]' % (key, m, n)])[3]
        return self.nonces(st, 'py-ecdsa-%s' % (c.name or 'toy-%d' % c.n), c, d, hs, [(m, x[1]) for x in r[1:]])

    def forks(self, case, env, rng, st):
        c = ref.NAMED[case['c']]
        d = case['d'] % c.n or 1
        Q = c.mul(c.G, d)
        P = (1 << 255) - 19
        rep = self.pyc(env, ['n'], ['x', None, 'cv = ECurve(%r); Q = ECPoint(cv, (%d, %d)); G = ECPoint(cv, (%d, %d)); D = %d; P = %d; ss = ECDSASignatureScheme(cv, %s)' % (
            (c.name,) + Q + c.G + (d, P, hash_expr('sha256')))], ['x', None, PYFORK], ['e', None, 'prog(%r)' % (case['t'],)])[3]
        return self.fresh(case, c, d, [[(bytes.fromhex(x[1][1]).decode(), bytes.fromhex(x[2][1]).decode()) for x in l[1:]] for l in rep[1:]], 'process')

    def fresh(self, case, c, d, procs, word):
        L = (c.n.bit_length() + 7) // 8
        e = ref.hash_to_int(digest('sha256', b'm'), c.n)
        seen = {}
        for i, l in enumerate(procs):
            for kind, v in l:
                if kind == 's':
                    r, s = int(v[:2 * L], 16), int(v[2 * L:], 16)
                    v = 'k%x' % ((e + r * d) * ref.inv(s, c.n) % c.n)
                if v in seen:
                    raise Violation('%s: the same secret %s (%s) was obtained by %s %d and %s %d' % (c.name, v, kind, word, seen[v], word, i))
                seen[v] = i
        return {'values': len(seen), 'concurrent': len(procs)}

    # Go
    def via_go(self, case, env, rng, st):
        op, n = case['op'], case['n']
        if op == 'par':
            c = ref.NAMED[case['c']]
            d = case['d'] % c.n or 1
            r = self.goc(env, ['reset', 'cv c ' + cargs(c), 'hs h c sha256', 'randpar %s %d %d c h %s' % (case['k'], case['w'], n, hx(d))])[3].split('|')
            return self.fresh(case, c, d, [[(case['k'], v) for v in l.split(' ') if v] for l in r], 'goroutine')
        c, dl, d = self.curve(case, env)
        if op == 'f':
            p = case['c']
            r = [l.split() for l in self.goc(env, ['reset'] + ['feur f %s' % hx(p)] * n)[1:]]
            return self.field_values(st, 'go', p, [(int(x[1], 16), int(x[2], 16)) for x in r])
        setup = ['reset', 'cv c ' + cargs(c, rng.random() < 0.7)]
        if op in ('p', 'sp'):
            r = self.goc(env, setup + ['pur p c'] * n)[2:]
            return self.points(st, 'go', c, dl, [x.split()[2] for x in r])
        Q = c.mul_int(c.G, d)
        if op in ('elg', 'selg'):
            if Q == c.O:
                raise Skip('Q')
            r = self.goc(env, setup + ['pxy q c %s %s' % (hx(Q[0]), hx(Q[1])), 'pgen g c'] + ['eenc e q g'] * n)[4:]
            return self.ephemerals(st, 'go', c, dl, d, [x.split()[3] for x in r])
        hs = '8' if op == 'sign' else case['hash']
        m = self.toy_message(c, d, hs, rng) if op == 'sign' else bytes(rng.getrandbits(8) for _ in range(9))
        r = self.goc(env, setup + ['hs h c %s' % hs] + ['sign s h %s %s' % (hx(d), bx(m))] * n)[3:]
        return self.nonces(st, 'go-ecdsa-%s' % (c.name or 'toy-%d' % c.n), c, d, hs, [(m, x.split()[1]) for x in r])

    # command-line tools
    def via_cli(self, case, env, rng, st):
        cli, op, n = env['cli'], case['op'], case['n']
        if op == 'key':
            c = ref.NAMED[case['c']]
            vals = []
            for _ in range(n):
                kb, ct = cli.parsed('ecdh_gen', cli.ok(env, 'ecdh_gen', ['--curve', c.name]), PRIV, 1)
                k = int.from_bytes(kb, 'big')
                if ct != curve_tuple(c) or not 0 < k < c.n:
                    raise Violation('ecdh_gen %s: scalar %x is not in 1..n-1, or another curve' % (c.name, k))
                vals.append(k)
            stats.Acc(st.setdefault('nonce', {})).add('cli-key-' + c.name, 1, c.n, vals)
            return {'values': n}
        if op == 'sign':
            c = ref.NAMED[case['c']]
            d = case['d'] % c.n or 1
            key = priv_file(c, d)
            sg = [(b'msg', unwrap(cli.ok(env, 'ecdsa_sign', ['-k', 'key'], b'msg', {'key': key}), SIG).hex()) for _ in range(n)]
            return self.nonces(st, 'cli-ecdsa-' + c.name, c, d, 'sha512', sg)
        c, dl = env['smooth'][case['s']]
        d = case['d'] % c.n or 1
        pub = pub_file(c, c.mul_int(c.G, d))
        pts, salts = [], []
        for _ in range(n):
            if op == 'eg':
                pts.append(cli.parsed('ecelgamal_enc', cli.ok(env, 'ecelgamal_enc', ['-k', 'key'], pub_file(c, c.G), {'key': pub}), EG, 2)[0].hex())
            else:
                pt, nonce, _ = cli.parsed('ecdh_enc', cli.ok(env, 'ecdh_enc', ['-k', 'key'], b'message', {'key': pub}), MSG, 3, False)
                pts.append(pt.hex())
                salts.append(int.from_bytes(nonce, 'big'))
                if len(nonce) != 24:
                    raise Violation('ecdh_enc: nonce of %d bytes' % len(nonce))
        if salts:
            stats.Acc(st.setdefault('nonce', {})).add('cli-message-nonces', 0, 1 << 192, salts)
        return self.ephemerals(st, 'cli-' + op, c, dl, d, pts)

    def final(self, aggs, env):
        a = S04.final(self, aggs, env)
        b = R01.final(self, aggs, env)
        return {'secrets_recovered': a['secrets_recovered'], 'values_drawn': b['values_drawn'], 'sources': b['sources'],
                'statistical_tests': a['statistical_tests'] + b['statistical_tests'], 'worst_z': max(a['worst_z'], b['worst_z'])}

    def nontrivial(self, case, tags):
        return tags.get('values', 0) >= 10 or tags.get('concurrent', 0) > 1

    def shrinks(self, case):
        t = case.get('t')
        if t:
            for i in range(len(t[1])):
                yield dict(case, t=[t[0], t[1][:i] + t[1][i + 1:], t[2]])
                yield dict(case, t=t[1][i])
            yield dict(case, t=[t[0], t[1], t[2][:1]])


CHECKS = {'R03': R03}
