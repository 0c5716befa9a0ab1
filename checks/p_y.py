"""Y01-Y04: the Python extension, driven inside a real interpreter."""
import json
import os
import random
import re
import subprocess
import sys
import sysconfig

import ref
from core import (Check, Violation, Skip, HarnessError, Driver, REPO, VERIF, SAN, cached_build, tree_files, lib_sources, sh)
from pmodel import Pool, pick_point, pick_scalar, jp
from p_f import pick_prime, pick_int
from p_s import digest, pick_hashname, pick_msg, pick_key, valid_nonces
from ref import Curve

KIND = {'ws': 'ShortWeierstrass', 'ed': 'Edwards', 'mo': 'Montgomery', 'te': 'TwistedEdwards'}
ATTR = {'ws': ('a', 'b'), 'ed': ('c', 'd'), 'mo': ('B', 'A'), 'te': ('a', 'd')}


def hx(v):
    return '%x' % v if v >= 0 else '-%x' % -v


def py_ext(variant):
    drv, live = (os.path.join(VERIF, 'drivers', f) for f in ('pydrv.py', 'pylive.c'))
    files = tree_files(os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), os.path.join(REPO, 'python'))
    files = [f for f in files if not f.endswith('.py')]
    flags = {'plain': ['-g', '-O2', '-fno-strict-overflow'], 'asan': ['-g', '-O1'] + SAN}[variant]

    def build(d):
        inc = ['-I' + os.path.join(REPO, 'python'), '-I' + os.path.join(REPO, 'include'), '-I' + sysconfig.get_paths()['include']]
        src = sorted(os.path.join(REPO, 'python', f) for f in os.listdir(os.path.join(REPO, 'python')) if f.endswith('.c'))
        sh(['gcc', '-shared', '-fPIC', '-w', '-DSAFE_CLEAN'] + flags + inc + ['-o', os.path.join(d, 'ECC.so')] + src + lib_sources()
           + ['-lgmp', '-lsodium', '-lpthread'])
        sh(['gcc', '-O2', '-shared', '-fPIC', '-o', os.path.join(d, 'live.so'), live])
    return cached_build('pyext-' + variant, files + [drv, live], flags, build)


def py_env(variant, ext):
    e = {'PYTHONMALLOC': 'malloc', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MALLOC_ARENA_MAX': '1'}
    if variant == 'asan':
        e['LD_PRELOAD'] = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    else:
        e['MALLOC_PERTURB_'] = '165'
        e['LD_PRELOAD'] = os.path.join(ext, 'live.so')
    return e


class PyCheck(Check):
    variants = ['plain', 'asan', 'plain', 'plain']
    pool_args = dict(ntoy=32, nbig=8)
    restart_every = 250

    def setup(self, tier):
        return {'ext': {v: py_ext(v) for v in sorted(set(self.variants))}}

    def worker_init(self, env):
        v = env['variant']
        t = 20 if v == 'plain' else 60
        env['drv'] = Driver([sys.executable, '-I', os.path.join(VERIF, 'drivers', 'pydrv.py'), env['built']['ext'][v]], timeout=t, env=py_env(v, env['built']['ext'][v]))
        if 'pool' not in env['stats']:
            env['pool'] = Pool(env['rng'], **self.pool_args)

    def worker_done(self, env):
        if 'drv' in env:
            env['drv'].stop()

    def shrinks(self, case):
        """drop chunks of the history only; values stay meaningful"""
        for k in ('ops', 'items', 'calls'):
            l = case.get(k, [])
            size = len(l) // 2
            while size >= 1:
                for i in range(0, len(l), size):
                    yield dict(case, **{k: l[:i] + l[i + size:]})
                size //= 2


def call(env, *cmd):
    r = json.loads(env['drv'].batch([json.dumps(cmd)])[0])
    if r and r[0] == 'BAD':
        raise HarnessError('driver: %r' % (cmd,))
    return r


def curve_expr(c, how='auto'):
    if c.name and how != 'param':
        return 'ECurve(%r)' % c.name
    return 'ECurve.%s(%d,%d,%d,%d,%d,%d,%d,%d)' % ((KIND[c.kind],) + tuple(c.params()[1:]))


def enc_pt(c, P):
    a = c.encode(P, True).hex()
    return ['P', a, c.encode(P, False).hex(), a]


def eq_enc(c, r, P):
    w = enc_pt(c, P)
    return r[:3] == w[:3] and r[0] == 'P' and r[3].lower() == w[3]


def curve_repr(c):
    return 'ECC.ECurve.%s(%s)' % (KIND[c.kind], ', '.join(str(v) for v in c.params()[1:]))


def same_curve(a, b):
    return a.params()[:8] == b.params()[:8]


def mul_values(c, P, k):
    """k*P; off the subgroup of the generator the library reduces the magnitude modulo n"""
    out = [c.mul(P, k), c.mul_int(P, abs(k)) if k >= 0 else c.neg(c.mul_int(P, -k))]
    if k < 0:
        out.append(c.neg(c.mul(P, -k)))
    return out


class Prog:
    """Executes ops one by one; self.v maps slot -> model value."""

    def __init__(self, env):
        self.env = env
        self.v = {}
        self.tags = {}
        self.log = []
        self.n = 0
        self.na = 0
        call(env, 'n')

    def tag(self, t):
        self.tags[t] = self.tags.get(t, 0) + 1
        self.n += 1

    def bad(self, what, r):
        raise Violation('%s gave %s after: %s' % (what, json.dumps(r)[:400], '; '.join(self.log[-12:])))

    def do(self, kind, target, code):
        self.log.append('%s = %s' % (target, code) if kind == 'e' and target else code)
        return call(self.env, kind, target, code)

    def match(self, r, m):
        if m[0] == 'F':
            return r == ['F', hx(m[1]), hx(m[1]), hx(m[2])]
        if m[0] == 'P':
            return eq_enc(m[1], r, m[2])
        if m[0] == 'C':
            return r == ['C', curve_repr(m[1])]
        if m[0] == 'I':
            return r == ['i', hx(m[1])]
        raise HarnessError(m)

    def val(self, d, code, m, kind='e'):
        r = self.do(kind, d, code)
        if not self.match(r, m):
            self.bad('%s: expected %s, but it' % (code, show(m)), r)
        self.v[d] = m

    def exc(self, code, kind='e', types=None):
        r = self.do(kind, None, code)
        if r[0] != '!':
            self.bad(code + ': expected an exception, but it', r)
        if r[1] in ('SystemError', 'MemoryError'):
            self.bad(code, r)

    def lit(self, code, want):
        r = self.do('e', None, code)
        if r != want:
            self.bad('%s: expected %s, but it' % (code, want), r)

    def get(self, s, kinds):
        m = self.v.get(s)
        return m if m is not None and m[0] in kinds else None

    def step(self, op):
        f = getattr(self, 'o_' + op[0])
        r = f(*op[1:])
        if r is not False:
            self.tag(op[0])

    # ---- creation
    def o_fe(self, d, i, p):
        self.val(d, 'FieldElement(%d, %d)' % (i, p), ('F', i % p, p))

    def o_feu(self, d, p):
        r = self.do('e', d, 'FieldElement.urandom(%d)' % p)
        if r[0] != 'F' or r[1] != r[2] or r[3] != hx(p) or not 0 <= int(r[1], 16) < p:
            self.bad('urandom', r)
        self.v[d] = ('F', int(r[1], 16), p)

    def o_int(self, d, k):
        self.val(d, '%d' % k, ('I', k))

    def o_cv(self, d, cj, how):
        c = Curve.from_json(cj)
        e = curve_expr(c, how)
        if how == 'repr':
            e = 'eval(repr(%s))' % e
        self.val(d, e, ('C', c, None))

    def o_pt(self, d, cs, P, how):
        m = self.get(cs, 'C')
        if not m:
            return False
        c = m[1]
        if P is not None and not c.on(*P):
            return False
        P = None if P is None else (P[0] % c.p, P[1] % c.p)
        if P is None or how == 'neutral':
            P = c.O
            if P is None or how == 'neutral':
                return self.val(d, 'ECPoint(%s)' % cs, ('P', c, P, cs))
        if how == 'int':
            e = '(%d, %d)' % P
        elif how == 'int+':
            e = '(%d, %d)' % (P[0] + c.p * 3, P[1] - c.p * (1 << 70))
        elif how == 'fe':
            e = '(FieldElement(%d, %d), FieldElement(%d, %d))' % (P[0], c.p, P[1], c.p)
        elif how == 'mix':
            return self.exc('ECPoint(%s, (FieldElement(%d, %d), %d))' % (cs, P[0], c.p, P[1]))
        elif how == 'other':
            q = 7 if c.p != 7 else 11
            return self.exc('ECPoint(%s, (FieldElement(%d, %d), FieldElement(%d, %d)))' % (cs, P[0], q, P[1], q))
        else:
            b = c.encode(P, how[0] != 'u')
            e = repr(b.hex()) if how.endswith('str') else repr(b)
        self.val(d, 'ECPoint(%s, %s)' % (cs, e), ('P', c, P, cs))

    def o_imp(self, d, cs, hexb, text):
        m = self.get(cs, 'C')
        if not m:
            return False
        c = m[1]
        b = bytes.fromhex(hexb)
        w = c.decode(b)
        code = 'ECPoint(%s, %s)' % (cs, repr(hexb) if text else repr(b))
        if isinstance(w, tuple) and len(w) == 2 and w[0] == Curve.EITHER:
            return False
        if w == Curve.REJECT:
            return self.exc(code)
        self.val(d, code, ('P', c, w, cs))

    def o_ptr(self, d, cs):
        m = self.get(cs, 'C')
        if not m:
            return False
        c = m[1]
        r = self.do('e', d, 'ECPoint.urandom(%s)' % cs)
        P = Curve.REJECT if r[0] != 'P' else c.decode(bytes.fromhex(r[2]))
        if isinstance(P, tuple) and P and P[0] == Curve.EITHER:
            P = P[1]
        if P == Curve.REJECT or not eq_enc(c, r, P):
            self.bad('random point', r)
        self.v[d] = ('P', c, P, cs)

    # ---- operators
    def expect(self, op, a, b):
        """model value, 'exc', or None (unspecified)"""
        k = a[0] + b[0]
        if k == 'II':
            return None
        if k == 'FF':
            if a[2] != b[2]:
                return 'exc'
            x, y, p = a[1], b[1], a[2]
        elif k == 'FI':
            x, y, p = a[1], b[1], a[2]
        elif k == 'IF':
            x, y, p = a[1], b[1], b[2]
        elif k == 'PP' and op in '+-':
            if not same_curve(a[1], b[1]):
                return 'exc'
            if a[1].bits != b[1].bits:
                return None
            return ('P', a[1], a[1].add(a[2], b[2]) if op == '+' else a[1].sub(a[2], b[2]), a[3])
        elif op == '*' and k in ('PI', 'IP', 'PF', 'FP'):
            P, s = (a, b) if a[0] == 'P' else (b, a)
            return [('P', P[1], q, P[3]) for q in mul_values(P[1], P[2], s[1])]
        else:
            return 'exc'
        return ('F', (x + y if op == '+' else x - y if op == '-' else x * y) % p, p)

    def o_bin(self, d, op, a, b):
        x, y = self.v.get(a), self.v.get(b)
        if not x or not y:
            return False
        w = self.expect(op, x, y)
        if w is None:
            return False
        self.res(d, '%s %s %s' % (a, op, b), w)
        self.tag('bin_%s%s' % (x[0], y[0]))

    def res(self, d, code, w, kind='e'):
        if w == 'exc':
            return self.exc(code, kind)
        ws = w if isinstance(w, list) else [w]
        r = self.do(kind, d, code)
        for m in ws:
            if self.match(r, m):
                self.v[d] = m
                return
        self.bad('%s: expected %s, but it' % (code, show(ws[0])), r)

    def o_inpl(self, a, op, b):
        x, y = self.v.get(a), self.v.get(b)
        if not x or not y or x[0] == 'I' and op == '**':
            return False
        if op == '**':
            if x[0] != 'F' or y[0] != 'I' or not 0 <= y[1] < 1 << 64:
                w = 'exc'
            else:
                w = ('F', pow(x[1], y[1], x[2]), x[2])
        else:
            w = self.expect(op, x, y)
        if w is None:
            return False
        al = 'z%d' % self.na
        self.na += 1
        self.do('x', None, '%s = %s' % (al, a))
        self.v[al] = x
        self.res(a, '%s %s= %s' % (a, op, b), w, 'x')

    def o_pow(self, d, a, k, form):
        x = self.get(a, 'F')
        if not x:
            return False
        code = ('%s ** (%d)' % (a, k)) if form == 0 else ('pow(%s, %d)' % (a, k)) if form == 1 else 'pow(%s, %d, %d)' % (a, k, x[2])
        if form == 2 or not 0 <= k < 1 << 64:
            return self.exc(code)
        self.val(d, code, ('F', pow(x[1], k, x[2]), x[2]))

    def o_powx(self, a, b):
        x, y = self.v.get(a), self.v.get(b)
        if not x or not y or x[0] == 'I' and y[0] == 'I' or x[0] == 'F' and y[0] == 'I':
            return False
        self.exc('%s ** %s' % (a, b))

    def o_neg(self, d, a):
        x = self.get(a, 'FP')
        if not x:
            return False
        self.val(d, '-' + a, ('F', -x[1] % x[2], x[2]) if x[0] == 'F' else ('P', x[1], x[1].neg(x[2]), x[3]))

    def o_inv(self, d, a):
        x = self.get(a, 'F')
        if not x:
            return False
        if x[1] == 0:
            return self.lit('%s.inverse()' % a, ['n'])
        self.val(d, '%s.inverse()' % a, ('F', pow(x[1], -1, x[2]), x[2]))

    def o_sqrt(self, d, a):
        x = self.get(a, 'F')
        if not x or x[2] == 2:
            return False
        q = ref.sqrt_mod(x[1], x[2])
        if q is None:
            return self.lit('%s.sqrt()' % a, ['n'])
        self.res(d, '%s.sqrt()' % a, [('F', q, x[2]), ('F', -q % x[2], x[2])])

    def o_cmp(self, op, a, b):
        x, y = self.v.get(a), self.v.get(b)
        if not x or not y or x[0] == 'I' and y[0] == 'I':
            return False
        code = '%s %s %s' % (a, op, b)
        if op not in ('==', '!='):
            return self.exc(code)
        k = x[0] + y[0]
        if k == 'FF':
            e = x[1:] == y[1:]
        elif k in ('FI', 'IF'):
            e = x[1] == y[1]
        elif k == 'PP':
            e = same_curve(x[1], y[1]) and x[2] == y[2]
            if e and x[1].bits != y[1].bits:
                return False
        elif k == 'CC':
            e = same_curve(x[1], y[1])
            if e and x[1].bits != y[1].bits:
                return False
        else:
            e = False
        self.lit(code, ['b', int(e == (op == '=='))])
        self.tag('eq' if e else 'ne')

    def o_toint(self, a):
        x = self.get(a, 'FPC')
        if not x:
            return False
        if x[0] == 'F':
            self.lit('int(%s)' % a, ['i', hx(x[1])])
        else:
            self.exc('int(%s)' % a)

    def o_repr(self, d, a):
        x = self.get(a, 'FPC')
        if not x:
            return False
        if x[0] == 'F':
            self.lit('repr(%s)' % a, ['s', ('ECC.FieldElement(%d, %d)' % x[1:3]).encode().hex()])
            self.lit('str(%s)' % a, ['s', ('ECC.FieldElement(%d, %d)' % x[1:3]).encode().hex()])
        elif x[0] == 'P':
            w = "ECC.ECPoint(%s, '%s')" % (curve_repr(x[1]), x[1].encode(x[2], True).hex())
            r = self.do('e', None, 'repr(%s)' % a)
            if r[0] != 's' or bytes.fromhex(r[1]).decode().lower() != w.lower():
                self.bad('repr', r)
            if x[1].O is not None and x[2] == x[1].O:
                return
            if x[2] is not None and x[2][1] == 0:
                return          # a compressed encoding may carry either parity bit here
        self.val(d, 'eval(repr(%s))' % a, x[:3] + ((None,) if x[0] == 'P' else ()))

    def o_attr(self, a, name):
        x = self.get(a, 'C')
        if not x:
            return False
        c = x[1]
        code = '%s.%s' % (a, name)
        k1, k2 = ATTR[c.kind]
        w = {'p': c.p, 'n': c.n, 'h': c.h, 'bits': c.bits, k1: c.k1, k2: c.k2}
        if name in w:
            self.lit(code, ['i', hx(w[name])])
        elif name == 'G':
            self.lit(code, ['t', ['i', hx(c.G[0])], ['i', hx(c.G[1])]])
        elif name == 'ctype':
            self.lit(code, ['s', KIND[c.kind].encode().hex()])
        else:
            self.exc(code)

    def o_valid(self, a, x, y):
        m = self.get(a, 'C')
        if not m:
            return False
        code = '%s.PointIsValid(%d, %d)' % (a, x, y)
        if x < 0 or y < 0:
            return self.exc(code)
        if x >= m[1].p or y >= m[1].p:
            return False
        self.lit(code, ['b', int(m[1].on(x, y))])

    def o_names(self):
        r = self.do('e', None, 'ECurve._CurveNames()')
        if r[0] != 'l' or sorted(bytes.fromhex(x[1]).decode() for x in r[1:]) != sorted(ref.NAMED):
            self.bad('names', r)

    def o_aff(self, a):
        x = self.get(a, 'P')
        if not x or x[2] is None:
            return False
        self.lit('%s.affine()' % a, ['t', ['i', hx(x[2][0])], ['i', hx(x[2][1])]])

    def o_base(self, a):
        x = self.get(a, 'P')
        if not x:
            return False
        self.lit('%s.setup_basemult()' % a, ['n'])

    def o_look(self, a):
        x = self.v.get(a)
        if not x:
            return False
        r = call(self.env, 'v', a)[0]
        if not self.match(r, x):
            self.bad('%s, which should still be %s,' % (a, show(x)), r)

    def o_del(self, a):
        if a not in self.v:
            return False
        self.do('x', None, 'del %s' % a)
        del self.v[a]

    def o_gc(self):
        self.do('x', None, 'gc.collect()')

    def finish(self):
        names = sorted(self.v)
        if not names:
            return
        for a, r in zip(names, call(self.env, 'v', *names)):
            if not self.match(r, self.v[a]):
                self.bad('%s, which should still be %s,' % (a, show(self.v[a])), r)


def show(m):
    if m[0] == 'P':
        return 'point %s of %s' % (m[2], m[1].name or m[1].params())
    if m[0] == 'C':
        return curve_repr(m[1])
    return str(m)


FS = ['f%d' % i for i in range(5)]
IS = ['k%d' % i for i in range(3)]
CS = ['c%d' % i for i in range(3)]
PS = ['p%d' % i for i in range(6)]


def gen_ops(rng, pool, n, primes, curves, allow_del=False):
    """A history over field, integer, curve and point slots."""
    ops = []
    has_f, has_p = bool(primes), bool(curves)
    cmap = {}
    if has_f:
        for s in FS[:rng.randrange(2, 5)]:
            p = rng.choice(primes)
            ops.append(['fe', s, pick_int(rng, p, True), p])
    for s in IS:
        p = rng.choice(primes) if has_f else curves[0].n
        ops.append(['int', s, pick_int(rng, p, True) if rng.random() < 0.6 or not has_p else pick_scalar(rng.choice(curves), rng)])
    if has_p:
        for s in CS:
            c = rng.choice(curves)
            cmap[s] = c
            ops.append(['cv', s, c.to_json(), rng.choice(['name', 'name', 'param', 'repr'])])
        for s in PS[:4]:
            cs = rng.choice(CS)
            ops.append(new_pt(rng, s, cs, cmap[cs]))
        if rng.random() < 0.5:
            c = rng.choice(curves)
            ops.append(['fe', 'f4', pick_scalar(c, rng), c.n])
    allf = FS if has_f else ['f4']
    allo = (FS if has_f else []) + (PS + PS if has_p else []) + IS
    for _ in range(n):
        r = rng.random()
        if r < 0.28:
            a, b = rng.choice(allo), rng.choice(allo)
            ops.append(['bin', rng.choice(PS if 'p' in (a + b) else FS), rng.choice('+-*' if has_f and a[0] != 'p' else '++-*'), a, b])
        elif r < 0.4 and has_p:
            a, b = rng.choice(PS), rng.choice(PS)
            ops.append(['bin', rng.choice(PS), rng.choice('++-'), a, b])
        elif r < 0.5 and has_p:
            a, b = rng.choice(PS), rng.choice(IS + ['f4', 'f4'])
            if rng.random() < 0.5:
                a, b = b, a
            ops.append(['bin', rng.choice(PS), '*', a, b])
        elif r < 0.58:
            ops.append(['inpl', rng.choice(allo), rng.choice('+-*' + '*') if not has_f or rng.random() < 0.8 else '**', rng.choice(allo)])
        elif r < 0.62 and has_f:
            k = rng.choice([0, 1, 2, 3, (1 << 64) - 1, 1 << 64, -1, 1 << 63, rng.getrandbits(64), rng.randrange(100), rng.getrandbits(16)])
            ops.append(['pow', rng.choice(FS), rng.choice(FS), k, rng.choice([0, 0, 0, 1, 1, 2])])
        elif r < 0.66:
            ops.append(['neg', rng.choice(FS if has_f and (not has_p or rng.random() < 0.5) else PS), rng.choice(allo)])
            if ops[-1][2][0] != ops[-1][1][0]:
                ops[-1][1] = (PS if ops[-1][2][0] == 'p' else FS)[0]
        elif r < 0.7 and has_f:
            ops.append([rng.choice(['inv', 'sqrt', 'sqrt']), rng.choice(FS), rng.choice(FS)])
        elif r < 0.76:
            ops.append(['cmp', rng.choice(['==', '!=', '==', '!=', '<', '>=']), rng.choice(allo + CS), rng.choice(allo + CS)])
        elif r < 0.78:
            ops.append(['toint', rng.choice(allo)])
        elif r < 0.83:
            a = rng.choice(allo + CS)
            ops.append(['repr', {'f': FS, 'p': PS, 'c': CS, 'k': FS}[a[0]][-1], a])
        elif r < 0.86 and has_p:
            ops.append(['attr', rng.choice(CS), rng.choice(['p', 'n', 'h', 'G', 'bits', 'ctype', 'a', 'b', 'c', 'd', 'A', 'B', 'x', 'Gx'])])
        elif r < 0.88 and has_p:
            cs = rng.choice(CS)
            c = cmap[cs]
            P = c.rand_point(rng) or c.G
            x, y = P
            q = rng.random()
            if q < 0.5:
                x, y = rng.choice([(x, (y + 1) % c.p), (y, x), (x, -y % c.p), (rng.randrange(c.p), rng.randrange(c.p)), (0, 0), (0, 1), (-x, y)])
            ops.append(['valid', cs, x, y])
        elif r < 0.91 and has_p:
            cs = rng.choice(CS)
            ops.append(new_pt(rng, rng.choice(PS), cs, cmap[cs]))
        elif r < 0.93 and has_p:
            ops.append([rng.choice(['aff', 'aff', 'base']), rng.choice(PS)])
        elif r < 0.94 and has_p:
            ops.append(['ptr', rng.choice(PS), rng.choice(CS)])
        elif r < 0.95 and has_f:
            ops.append(['feu', rng.choice(FS), rng.choice(primes)])
        elif r < 0.96:
            ops.append(['look', rng.choice(allo)])
        elif r < 0.97:
            ops.append(['powx', rng.choice(allo), rng.choice(allo)])
        elif r < 0.98:
            ops.append(['int', rng.choice(IS), pick_scalar(rng.choice(curves), rng) if has_p else pick_int(rng, rng.choice(primes), True)])
        elif has_p:
            from p_e import gen_bytes
            cs = rng.choice(CS)
            g = gen_bytes(cmap[cs], rng)
            g = g if isinstance(g, str) else g.hex()
            ops.append(['imp', rng.choice(PS), cs, g, rng.random() < 0.4])
        if allow_del and rng.random() < 0.35:
            ops.append(['del', rng.choice(allo + CS + CS)])
            if rng.random() < 0.3:
                ops.append(['gc'])
    return ops


def new_pt(rng, s, cs, c):
    if rng.random() < 0.06:
        return ['pt', s, cs, None, 'neutral']
    P = pick_point(c, rng)
    return ['pt', s, cs, jp(P), rng.choice(['int', 'int', 'int', 'int+', 'fe', 'fe', 'str', 'ustr', 'bytes', 'ubytes', 'ustr', 'ubytes', 'mix', 'other'])]


class Y01(PyCheck):
    pid = 'Y01'
    rule = ('a case is a Python program of 12-40 steps over field elements of 1-3 prime fields (2..1024 bits), integers of up to 4096 bits and '
            'any sign, curve objects (built-in, built from parameters, read back from repr) and points given by integers, field elements, '
            'text or bytes: all operators in both operand orders and in place, power, inverse, square root, comparison, conversion, repr '
            'evaluated again, attributes, validity test, multiplication tables, imports of malformed encodings; every result is compared with '
            'Python integers and the reference group, operand combinations without meaning must raise, and all objects (including aliases '
            'of operands modified in place) are compared again at the end; non-trivial: at least 8 steps compared')
    cases = {'quick': 5000, 'thorough': 150000}
    budget = {'quick': 110, 'thorough': 1800}

    def gen(self, rng, env):
        t = rng.random()
        primes = [pick_prime(rng) for _ in range(rng.choice([1, 1, 2, 3]))] if t < 0.75 else []
        curves = []
        if t > 0.35:
            c = env['pool'].pick(rng, 0.55, 0.2)
            curves = [c, c] + ([env['pool'].pick(rng, 0.7, 0.15)] if rng.random() < 0.3 else [])
            if primes and rng.random() < 0.5:
                primes.append(rng.choice([c.p, c.n]))
        big = curves and max(c.p for c in curves) > 1 << 64
        return {'ops': gen_ops(rng, env['pool'], rng.randrange(12, 24 if big else 40), primes, curves)}

    def fixed_cases(self, tier, env):
        rng = random.Random(4)
        out = [{'ops': [['names']]}]
        for c in ref.NAMED.values():
            out.append({'ops': gen_ops(rng, None, 14, [c.p, c.n], [c, c])})
        return out

    def run(self, case, env):
        g = Prog(env)
        for op in case['ops']:
            g.step(op)
        g.finish()
        return g.tags

    def nontrivial(self, case, tags):
        return sum(tags.values()) >= 8 or 'names' in tags


# ---------------------------------------------------------------- Y02
TEXTS = ['a', 'hello', 'h\u00e9llo', '\u4f60\u597d', '\U0001f600\U0001f601', 'nul\0inside', '\0', ' ', '\x7f', 'x' * 300]


def key_expr(d, n, form, big=1 << 90):
    if form == 'fe':
        return 'FieldElement(%d, %d)' % (d, n)
    if form == 'fe+':
        return 'FieldElement(%d, %d) - FieldElement(%d, %d)' % (d + n * 3 + 5, n, 5, n)
    if form == 'int+':
        return '(%d)' % (d + n * big)
    if form == 'neg':
        return '(%d)' % (d - n * (1 + big))
    return '%d' % d


KFORMS = ['int', 'int', 'int+', 'neg', 'fe', 'fe', 'fe+']


def hash_expr(hs):
    if hs.startswith('sha'):
        return "mkhash(%d, 'H', %r)" % ({'sha256': 32, 'sha512': 64}[hs], hs)
    return 'mkhash(%s)' % hs


class Y02(PyCheck):
    pid = 'Y02'
    rule = ('a case is a curve (built-in, toy of any form, random), a hash module (identity of 1..200 bytes or SHA-2), a key (integers of any size '
            'and sign in its residue class, or field element) and 3-10 items: sign a bytes or text message and verify it with the true and with '
            'other messages and keys in several representations, before and after export/import as bytes and text; verify signatures made by the '
            'reference signer and altered ones; import of malformed encodings; ElGamal encryption, decryption with right and wrong '
            'keys, ciphertexts rebuilt from points or made of arbitrary points; verdicts, ranges, equations and plaintexts must '
            'equal the reference; non-trivial: at least one signature or ciphertext compared')
    cases = {'quick': 5000, 'thorough': 120000}
    budget = {'quick': 110, 'thorough': 1800}
    assumptions = ['on toy curves a (key, digest) pair that admits no signature is not signed']

    def gen(self, rng, env):
        c = env['pool'].pick(rng, 0.5, 0.2)
        n, L = c.n, (c.n.bit_length() + 7) // 8
        hs = pick_hashname(c, rng)
        d = pick_key(c, rng)
        items = []

        def msg():
            if rng.random() < 0.25:
                return ['s', rng.choice(TEXTS)]
            return ['b', pick_msg(c, hs, rng).hex()]

        def scalar():
            r = rng.random()
            return rng.choice([1, 2, n - 1]) if r < 0.2 else rng.randrange(1, min(n, 1 << (8 * rng.randrange(0, L) + 1) + 1)) if r < 0.35 else rng.randrange(1, n)
        for _ in range(rng.randrange(3, 11)):
            t = rng.random()
            if t < 0.3:
                items.append(['sign', msg(), rng.choice(KFORMS), msg(), rng.choice(['mul', 'int', 'c', 'u', 'eq'])])
            elif t < 0.55:
                m = msg()
                h = digest(hs, self.mb(m))
                sg = None
                for _ in range(10):
                    sg = sg or ref.ecdsa_sign(c, d, h, rng.choice([1, n - 1, rng.randrange(1, n)]))
                r, s = sg or (scalar(), scalar())
                how = rng.choice(['ok', 'ok', 'ns', 'sw', 'r+', 's+', 'm', 'key', 'neg', 'rnd', 'z', 'n'])
                if how == 'ns':
                    s = n - s
                elif how == 'sw':
                    r, s = s, r
                elif how == 'r+':
                    r = (r + rng.choice([1, -1, 1 << rng.randrange(n.bit_length())])) % n
                elif how == 's+':
                    s = (s + rng.choice([1, -1, 1 << rng.randrange(n.bit_length())])) % n
                elif how == 'm':
                    m = msg()
                elif how == 'rnd':
                    r, s = scalar(), scalar()
                elif how == 'z':
                    r, s = rng.choice([(0, s), (r, 0)])
                elif how == 'n':
                    r, s = rng.choice([(n, s), (r, n), (r + n, s), (r, s + n)])
                items.append(['ver', r, s, m, {'key': 'other', 'neg': 'neg'}.get(how, 'Q'), rng.choice(['b', 't', 'T']), rng.choice(['mul', 'int', 'c', 'u', 'eq'])])
            elif t < 0.62:
                b = scalar().to_bytes(L, 'big') + scalar().to_bytes(L, 'big')
                b = rng.choice([b[:-1], b + b'\0', b[:L], b'', b[1:], b + b, b'\0' + b, b[:rng.randrange(len(b))]])
                if rng.random() < 0.5:
                    items.append(['imp', 'b', b.hex()])
                else:
                    x = b.hex()
                    if rng.random() < 0.6:
                        x = (scalar().to_bytes(L, 'big') + scalar().to_bytes(L, 'big')).hex()
                        i = rng.randrange(len(x))
                        x = x[:i] + rng.choice(['g', ' ', '\0', '\u00e9', '-', '\n']) + x[i + rng.randrange(2):]
                    items.append(['imp', 't', x])
            elif t < 0.85:
                items.append(['eg', jp(pick_point(c, rng)), rng.choice(['mul', 'int', 'c', 'u', 'eq']), rng.choice(KFORMS), rng.choice(KFORMS),
                              rng.choice(['r1', 'r2', 'r3'])])
            else:
                items.append(['egx', jp(pick_point(c, rng)), jp(pick_point(c, rng)), d if rng.random() < 0.5 else pick_scalar(c, rng) % n, rng.choice(KFORMS)])
        return {'curve': c.to_json(), 'oc': env['pool'].pick(rng).to_json(), 'hash': hs, 'd': d, 'd2': pick_key(c, rng), 'items': items}

    def fixed_cases(self, tier, env):
        rng = random.Random(5)

        class One:
            def pick(self, r, *a):
                return self.c
        out = []
        for c in ref.NAMED.values():
            e = dict(pool=One())
            e['pool'].c = c
            for _ in range(2):
                out.append(self.gen(rng, e))
        return out

    @staticmethod
    def mb(m):
        return m[1].encode() if m[0] == 's' else bytes.fromhex(m[1])

    @staticmethod
    def me(m):
        return repr(m[1]) if m[0] == 's' else repr(bytes.fromhex(m[1]))

    def run(self, case, env):
        c, oc = Curve.from_json(case['curve']), Curve.from_json(case['oc'])
        n, L, hs, d, d2 = c.n, (c.n.bit_length() + 7) // 8, case['hash'], case['d'], case['d2']
        if not (1 <= d < n and 1 <= d2 < n):
            raise Skip('d')
        g = Prog(env)
        tags = {}
        same = same_curve(c, oc)
        g.do('e', 'cv', curve_expr(c, 'auto'))
        g.do('e', 'cw', curve_expr(c, 'param'))
        g.do('e', 'co', curve_expr(oc))
        g.do('x', None, 'h = %s' % hash_expr(hs))
        g.do('x', None, 'ss = ECDSASignatureScheme(cv, h); st = ECDSASignatureScheme(cw, h)')
        g.do('e', 'G', 'ECPoint(cv, cv.G)')
        Qs = {'Q': c.mul(c.G, d), 'other': c.mul(c.G, d2), 'neg': c.mul(c.G, n - d)}
        ks = {'Q': d, 'other': d2, 'neg': n - d}

        def tag(t):
            tags[t] = tags.get(t, 0) + 1

        def pub(which, form):
            Q = Qs[which]
            if form == 'mul' or Q is None or Q == c.O:
                return '(G * %d)' % ks[which]
            if form == 'eq':
                return 'ECPoint(cw, (%d, %d))' % Q
            if form == 'int':
                return 'ECPoint(cv, (%d, %d))' % Q
            b = c.encode(Q, form == 'c')
            return 'ECPoint(cv, %r)' % (b if d & 1 else b.hex())

        def sigof(r, what):
            if r[0] != 'S' or len(r[1]) != 4 * L or r[2] != r[1].upper():
                g.bad(what, r)
            return int(r[1][:2 * L], 16), int(r[1][2 * L:], 16)

        def verify(name, which, form, m, r, s):
            want = bool(self.mb(m)) and ref.ecdsa_verify(c, Qs[which], digest(hs, self.mb(m)), r, s)
            g.lit('%s.Verify(%s, %s)' % (name, pub(which, form), self.me(m)), ['b', int(want)])
            tag('accepted' if want else 'rejected')

        def ctx(P):
            return 'ECPoint(cv)' if P is None or P == c.O else 'ECPoint(%s, (%d, %d))' % (('cv', 'cw')[P[0] & 1], P[0], P[1])

        def point(P):
            P = None if P is None else tuple(P)
            if P is None:
                return c.O
            if not c.on(*P):
                raise Skip('P')
            return P

        def dec(name, k, kd, form, D, C):
            w = c.sub(D, c.mul_int(C, kd))
            g.val(None, '%s.decrypt(%s)' % (name, key_expr(kd, n, form)), ('P', c, w, None))

        for it in case['items']:
            if it[0] == 'sign':
                m, m2 = it[1], it[3]
                h = digest(hs, self.mb(m)) if self.mb(m) else b''
                if n < 5000 and m[1] and len(valid_nonces(c, d, ref.hash_to_int(h, n) % n)) <= n // 20:
                    continue
                code = 'ss.Sign(%s, %s)' % (key_expr(d, n, it[2]), self.me(m))
                if not m[1]:
                    g.exc(code)
                    continue
                r, s = sigof(g.do('e', 's', code), 'sign')
                if not (1 <= r < n and 1 <= s < n and ref.ecdsa_verify(c, Qs['Q'], h, r, s)):
                    raise Violation('signature r=%x s=%x does not satisfy the ECDSA equation: %s' % (r, s, '; '.join(g.log[-6:])))
                verify('s', 'Q', it[4], m, r, s)
                verify('s', 'Q', 'mul', m2, r, s)
                verify('s', 'other', it[4], m, r, s)
                for e in ('ECDSASignature(ss, s.AsBytes())', 'ECDSASignature(st, str(s))'):
                    if sigof(g.do('e', 't', e), 'import') != (r, s):
                        raise Violation('re-imported signature differs: %s' % '; '.join(g.log[-6:]))
                    verify('t', 'Q', it[4], m, r, s)
                rp = g.do('e', None, 'repr(s)')
                if rp[0] != 's' or not bytes.fromhex(rp[1]).decode().endswith(", '%0*X')" % (4 * L, r << 8 * L | s)):
                    g.bad('repr', rp)
                if not same:
                    g.lit('s.Verify(ECPoint(co, co.G), %s)' % self.me(m), ['b', 0])
                if oc.n != n:
                    g.exc('ss.Sign(FieldElement(%d, %d), %s)' % (1, oc.n, self.me(m)))
                tag('signed')
            elif it[0] == 'ver':
                _, r, s, m, which, form, pf = it
                if (r | s) >> 8 * L:
                    continue
                b = r.to_bytes(L, 'big') + s.to_bytes(L, 'big')
                code = 'ECDSASignature(%s, %r)' % (('ss', 'st')[r & 1], b if form == 'b' else b.hex() if form == 't' else b.hex().upper())
                if not (1 <= r < n and 1 <= s < n):
                    g.exc(code)
                    tag('import_refused')
                    continue
                if sigof(g.do('e', 't', code), 'import') != (r, s):
                    raise Violation('imported signature differs: %s' % '; '.join(g.log[-3:]))
                verify('t', which, pf, m, r, s)
            elif it[0] == 'imp':
                x = it[2] if it[1] == 't' else bytes.fromhex(it[2])
                if len(x) == 2 * L * len(it[1].replace('t', 'tt')) and (it[1] == 'b' or re.fullmatch('[0-9a-fA-F]*', x)):
                    continue
                g.exc('ECDSASignature(ss, %r)' % x)
                tag('import_refused')
            elif it[0] == 'eg':
                M = point(it[1])
                r = g.do('e', 'e', 'ECElgamalCiphertext.encrypt(%s, %s)' % (pub('Q', it[2]), ctx(M)))
                if r[0] != 'E':
                    g.bad('encrypt', r)
                CD = []
                for q in r[1:3]:
                    P = c.decode(bytes.fromhex(q[2])) if q[0] == 'P' else Curve.REJECT
                    if isinstance(P, tuple) and P and P[0] == Curve.EITHER:
                        P = P[1]
                    if P == Curve.REJECT or not eq_enc(c, q, P):
                        g.bad('encrypt', r)
                    CD.append(P)
                C, D = CD
                if r[3].lower() != '(%s, %s)' % (c.encode(C, True).hex(), c.encode(D, True).hex()):
                    g.bad('text', r)
                if c.sub(D, c.mul(C, d)) != M:
                    raise Violation('D - dC is not the plaintext: C=%s D=%s M=%s: %s' % (C, D, M, '; '.join(g.log[-6:])))
                if c.n > 1 << 40:
                    if C == c.O or c.mul_int(C, n) != c.O:
                        raise Violation('C = %s is no multiple of the generator' % (C,))
                    r2 = g.do('e', 'e2', 'ECElgamalCiphertext.encrypt(%s, %s)' % (pub('Q', it[2]), ctx(M)))
                    if r2[:3] == r[:3]:
                        raise Violation('two encryptions are equal')
                dec('e', 'Q', d, it[3], D, C)
                e = {'r1': 'ECElgamalCiphertext(e.C, e.D)', 'r2': 'ECElgamalCiphertext(ECPoint(cw, str(e.C)), ECPoint(cv, e.D.uncompressed()))',
                     'r3': 'eval(repr(e), {"ECC": ECC})'}[it[5]]
                if it[5] == 'r1' or not any(P == c.O or P is None or P[1] == 0 for P in (C, D)):
                    q = g.do('e', 'f', e)
                    if q != r:
                        g.bad('rebuilt ciphertext', q)
                    g.do('x', None, 'del e')
                    dec('f', 'Q', d, it[4], D, C)
                    dec('f', 'other', d2, it[3], D, C)
                tag('encrypted')
            elif it[0] == 'egx':
                C, D = point(it[1]), point(it[2])
                g.do('e', 'e', 'ECElgamalCiphertext(%s, %s)' % (ctx(C), ctx(D)))
                g.val(None, 'e.C', ('P', c, C, None))
                g.val(None, 'e.D', ('P', c, D, None))
                dec('e', None, it[3] % n, it[4], D, C)
                if oc.n != n:
                    g.exc('e.decrypt(FieldElement(%d, %d))' % (3, oc.n))
                if not same:
                    g.exc('ECElgamalCiphertext(%s, ECPoint(co, co.G))' % ctx(C))
                    g.exc('ECElgamalCiphertext(ECPoint(co, co.G), %s)' % ctx(C))
                    g.exc('ECElgamalCiphertext.encrypt(ECPoint(co, co.G), %s)' % ctx(C))
                tag('decrypted')
        return tags

    def nontrivial(self, case, tags):
        return bool(tags.get('signed') or tags.get('encrypted') or tags.get('decrypted') or tags.get('accepted') or tags.get('rejected'))


# ---------------------------------------------------------------- Y04
class LifeProg(Prog):
    """Adds schemes, signatures and ciphertexts to the history."""

    def match(self, r, m):
        if m[0] == 'H':
            return r[0] == 'H' and r[1].startswith('ECC.ECDSASignatureScheme(' + curve_repr(m[1]))
        if m[0] == 'S':
            return r == ['S', m[1].hex(), m[1].hex().upper()]
        if m[0] == 'E':
            return r[0] == 'E' and eq_enc(m[1], r[1], m[2]) and eq_enc(m[1], r[2], m[3])
        return super().match(r, m)

    def o_ss(self, d, cs, hs):
        m = self.get(cs, 'C')
        if not m:
            return False
        self.val(d, 'ECDSASignatureScheme(%s, %s)' % (cs, hash_expr(hs)), ('H', m[1], hs))

    def o_sstmp(self, d, cj, hs):
        c = Curve.from_json(cj)
        self.val(d, 'ECDSASignatureScheme(%s, %s)' % (curve_expr(c), hash_expr(hs)), ('H', c, hs))

    def o_pttmp(self, d, cj, k):
        c = Curve.from_json(cj)
        self.res(d, 'ECPoint(%s, (%d, %d)) * %d' % (curve_expr(c), c.G[0], c.G[1], k), [('P', c, q, None) for q in mul_values(c, c.G, k)])

    def o_sgn(self, d, ss, key, msg):
        m = self.get(ss, 'H')
        if not m:
            return False
        c = m[1]
        msg = bytes.fromhex(msg)
        key = key % (c.n - 1) + 1
        if not msg or c.n < 5000 and len(valid_nonces(c, key, ref.hash_to_int(digest(m[2], msg), c.n) % c.n)) <= c.n // 20:
            return False
        r = self.do('e', d, '%s.Sign(%d, %r)' % (ss, key, msg))
        L = (c.n.bit_length() + 7) // 8
        if r[0] != 'S' or len(r[1]) != 4 * L:
            self.bad('Sign', r)
        b = bytes.fromhex(r[1])
        if not ref.ecdsa_verify(c, c.mul(c.G, key), digest(m[2], msg), int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big')):
            self.bad('Sign', r)
        self.v[d] = ('S', b, c, m[2])

    def o_simp(self, d, ss, rs, text):
        m = self.get(ss, 'H')
        if not m:
            return False
        c = m[1]
        L = (c.n.bit_length() + 7) // 8
        b = (rs[0] % (c.n - 1) + 1).to_bytes(L, 'big') + (rs[1] % (c.n - 1) + 1).to_bytes(L, 'big')
        self.val(d, 'ECDSASignature(%s, %r)' % (ss, b.hex() if text else b), ('S', b, c, m[2]))

    def o_ver(self, s, p, msg):
        m, q = self.get(s, 'S'), self.get(p, 'P')
        msg = bytes.fromhex(msg)
        if not m or not q or not msg:
            return False
        c = m[2]
        code = '%s.Verify(%s, %r)' % (s, p, msg)
        if not same_curve(c, q[1]):
            return self.lit(code, ['b', 0])
        if c.bits != q[1].bits or q[2] is None or q[2] == c.O or c.mul_int(q[2], c.n) != c.O:
            return False
        L = len(m[1]) // 2
        w = ref.ecdsa_verify(c, q[2], digest(m[3], msg), int.from_bytes(m[1][:L], 'big'), int.from_bytes(m[1][L:], 'big'))
        self.lit(code, ['b', int(w)])

    def o_emk(self, d, a, b):
        x, y = self.get(a, 'P'), self.get(b, 'P')
        if not x or not y:
            return False
        code = 'ECElgamalCiphertext(%s, %s)' % (a, b)
        if not same_curve(x[1], y[1]):
            return self.exc(code)
        if x[1].bits != y[1].bits:
            return False
        self.val(d, code, ('E', x[1], x[2], y[2]))

    def o_enc(self, d, a, b):
        x, y = self.get(a, 'P'), self.get(b, 'P')
        if not x or not y:
            return False
        code = 'ECElgamalCiphertext.encrypt(%s, %s)' % (a, b)
        c = x[1]
        if not same_curve(c, y[1]):
            return self.exc(code)
        if c.bits != y[1].bits:
            return False
        r = self.do('e', d, code)
        PP = []
        if r[0] != 'E':
            self.bad('encrypt', r)
        for q in r[1:3]:
            P = c.decode(bytes.fromhex(q[2]))
            if isinstance(P, tuple) and P and P[0] == Curve.EITHER:
                P = P[1]
            if P == Curve.REJECT:
                self.bad('encrypt', r)
            PP.append(P)
        self.v[d] = ('E', c, PP[0], PP[1])

    def o_dec(self, d, e, k):
        m = self.get(e, 'E')
        if not m:
            return False
        c = m[1]
        self.val(d, '%s.decrypt(%d)' % (e, k), ('P', c, c.sub(m[3], c.mul_int(m[2], k % c.n)), None))

    def o_ecd(self, d, e, which):
        m = self.get(e, 'E')
        if not m:
            return False
        self.val(d, '%s.%s' % (e, which), ('P', m[1], m[2 if which == 'C' else 3], None))

    def o_fail(self, cs, ss, p):
        """constructions that fail half way; nothing may be lost or kept"""
        for code in ('ECPoint(%s, (1, None))' % cs, 'ECPoint(%s, b"\\x02")' % cs, 'ECPoint(%s, "zz")' % cs, 'ECDSASignature(%s, b"")' % ss,
                     'ECDSASignature(%s, "q")' % ss, '%s.Sign(5, b"")' % ss, '%s.Sign("", b"x")' % ss, 'ECDSASignatureScheme(%s, badhash("digest-short"))' % cs,
                     'ECElgamalCiphertext(%s, 5)' % p, 'ECElgamalCiphertext.encrypt(%s, None)' % p, '%s + 5' % p, 'ECurve("nope")', 'FieldElement(1, 0)',
                     'ECPoint(%s, (FieldElement(3, 7), 5))' % cs, '%s.decrypt(1.5)' % p):
            self.exc(code)


HS, GS, EG = ['h0', 'h1'], ['s0', 's1', 's2'], ['e0', 'e1']


def life_ops(rng, pool, n, curves, primes):
    base = gen_ops(rng, pool, n, primes, curves, allow_del=True)
    head = [i for i, o in enumerate(base) if o[0] in ('cv', 'fe', 'int', 'pt')]
    body = base[len(head):] if head == list(range(len(head))) else base
    out = base[:len(base) - len(body)]
    for o in body + [None] * (n // 2):
        if o is not None:
            out.append(o)
        hs = rng.choice(['sha256', '3', '20'])
        msg = bytes([rng.getrandbits(8) for _ in range(rng.randrange(1, 6))]).hex() if rng.random() < 0.7 else '6162'
        x = rng.randrange(16)
        c = rng.choice(curves)
        new = {0: ['ss', rng.choice(HS), rng.choice(CS), hs], 1: ['ss', rng.choice(HS), rng.choice(CS), hs], 2: ['sstmp', rng.choice(HS), c.to_json(), hs],
               3: ['sgn', rng.choice(GS), rng.choice(HS), rng.getrandbits(60), msg], 4: ['sgn', rng.choice(GS), rng.choice(HS), 7, msg],
               5: ['simp', rng.choice(GS), rng.choice(HS), [rng.getrandbits(70), rng.getrandbits(500)], rng.random() < 0.5],
               6: ['ver', rng.choice(GS), rng.choice(PS), msg], 7: ['ver', rng.choice(GS), rng.choice(PS), msg],
               8: ['emk', rng.choice(EG), rng.choice(PS), rng.choice(PS)], 9: ['enc', rng.choice(EG), rng.choice(PS), rng.choice(PS)],
               10: ['dec', rng.choice(PS), rng.choice(EG), rng.choice([3, rng.getrandbits(200), -5])], 11: ['ecd', rng.choice(PS), rng.choice(EG), rng.choice('CD')],
               12: ['pttmp', rng.choice(PS), c.to_json(), pick_scalar(c, rng)], 13: ['del', rng.choice(CS + CS + HS + GS + EG + PS)],
               14: ['del', rng.choice(CS + HS + EG)], 15: ['gc']}[x]
        out.append(new)
        if rng.random() < 0.04:
            out.append(['fail', rng.choice(CS), rng.choice(HS), rng.choice(PS)])
        if rng.random() < 0.25:
            out.append(['look', rng.choice(PS + GS + EG + HS)])
    return out


class Y04(PyCheck):
    pid = 'Y04'
    rule = ('a case is a Python history of 20-60 steps that creates, combines, rebinds and deletes curves, points, elements, signature schemes, '
            'signatures and ciphertexts (including ones made from temporary curves, and constructions that fail half way) with explicit '
            'collections; freed memory is overwritten (MALLOC_PERTURB_) or policed by AddressSanitizer, every surviving object is compared '
            'with the model at the end; in one third of the cases the same history is then repeated as a loop body in three windows and '
            'the live heap must not grow by 16 bytes per repetition in each of them (confirmed with twice the length); non-trivial: '
            'at least one deletion followed by a use, or a completed growth measurement')
    cases = {'quick': 4000, 'thorough': 90000}
    budget = {'quick': 110, 'thorough': 1800}
    variants = ['plain', 'asan', 'plain', 'asan']
    restart_every = 60

    def gen(self, rng, env):
        curves = [env['pool'].pick(rng, 0.6, 0.15) for _ in range(rng.choice([1, 2, 2]))]
        curves.append(curves[0])
        primes = [pick_prime(rng), curves[0].n] if rng.random() < 0.6 else []
        big = max(c.p for c in curves) > 1 << 64
        return {'ops': life_ops(rng, env['pool'], rng.randrange(8, 14 if big else 26), curves, primes), 'leak': rng.random() < 0.34, 'n': 30 if big else 60}

    def fixed_cases(self, tier, env):
        rng = random.Random(6)
        out = []
        for nm in ('secp112r1', 'secp256k1', 'Curve25519', 'Ed25519', 'E-222'):
            if nm in ref.NAMED:
                c = ref.NAMED[nm]
                out.append({'ops': life_ops(rng, None, 10, [c, c], [c.n]), 'leak': True, 'n': 20})
        return out

    def run(self, case, env):
        g = LifeProg(env)
        dead = False
        for op in case['ops']:
            if op[0] == 'fail' and not (g.get(op[1], 'C') and g.get(op[2], 'H') and g.get(op[3], 'P')):
                continue
            g.step(op)
            dead |= op[0] == 'del'
        g.finish()
        tags = dict(g.tags)
        tags['deleted_then_used'] = int(dead)
        if case['leak'] and env['variant'] == 'plain':
            body = '\n'.join('try: %s\nexcept Exception: pass' % l for l in g.log if 'gc.collect' not in l)
            for k in (case['n'], 2 * case['n']):
                w = call(env, 'leak', '', body, k)
                if w[0] == '!':
                    raise HarnessError(w)
                n = w.pop(0)
                if not all(x >= 16 * n for x in w):
                    break
            else:
                raise Violation('live heap grew by %s bytes in three windows of %d repetitions of: %s' % (w, n, '; '.join(g.log)), kind='leak')
            tags['growth_measured'] = 1
        return tags

    def nontrivial(self, case, tags):
        return bool(tags.get('deleted_then_used') or tags.get('growth_measured'))


# ---------------------------------------------------------------- Y03
JUNK = ['None', 'True', 'False', '1.5', 'float("nan")', '1j', '""', '"x"', '"0"', '"\\ud800"', '"a\\0b"', '"02"', '"\u4f60" * 40', 'b""', 'b"\\0"', 'b"x" * 300', 'bytearray(b"abc")',
        'memoryview(b"abc")', '[]', '{}', '()', '(1,)', '(1, 2)', '(1, 2, 3)', '(None, None)', '("1", "2")', '(1.0, 2.0)', '(Boom(), 1)', '[1, 2]', '(10**400, -10**400)',
        'object()', 'Boom()', 'Refl()', 'MyInt(7)', 'MyInt(-10**40)', '(MyInt(5), MyInt(6))', 'Idx()', 'int', 'len', 'lambda *a: 1', 'sys', 'hashlib', '...', 'NotImplemented', 'range(3)', '{1, 2}',
        'types.ModuleType("m")', 'mkhash(32)', 'mkhash(1)', 'mkhash(200)', 'mkhash(0)', 'FieldElement', 'ECurve', 'ECC']
INTS = ['0', '1', '2', '-1', '3', '4', '7', '9', '15', '16', '23', '-7', '1 << 31', '1 << 63', '(1 << 64) - 1', '1 << 64', '-(1 << 63)', '10**3000', '-10**3000', '2**1023', '2**1024 - 105',
        '2**1024', '2**61 - 1', '(2**61 - 1) * (2**89 - 1)', '2**127', '2**15 - 1', '65537 * 65539']
BADHASH = ['new-raises', 'new-none', 'new-args', 'new-missing', 'new-int', 'new-class', 'size-missing', 'size-str', 'size-neg', 'size-zero', 'size-huge', 'size-big', 'size-bool',
           'digest-raises', 'digest-str', 'digest-ba', 'digest-long', 'digest-short', 'later-raise', 'later-long', 'later-short', 'later-none']
TYPES = ['FieldElement', 'ECurve', 'ECPoint', 'ECDSASignature', 'ECDSASignatureScheme', 'ECElgamalCiphertext']
CTOR = TYPES + ['SubFE', 'SubCV', 'SubPT', 'ECurve.ShortWeierstrass', 'ECurve.Edwards', 'ECurve.Montgomery', 'ECurve.TwistedEdwards', 'FieldElement.urandom', 'ECPoint.urandom',
                'ECElgamalCiphertext.encrypt', 'ECurve._CurveNames']
GOOD = ['f0', 'f1', 'f2', 'c0', 'c1', 'p0', 'p1', 'p2', 'h0', 's0', 'e0']
UNREADY = ['FieldElement.__new__(FieldElement)', 'ECurve.__new__(ECurve)', 'ECPoint.__new__(ECPoint)', 'ECDSASignature.__new__(ECDSASignature)',
           'ECDSASignatureScheme.__new__(ECDSASignatureScheme)', 'ECElgamalCiphertext.__new__(ECElgamalCiphertext)', 'NoInitFE(1)', 'NoInitPT()', 'SubCV.__new__(SubCV)']
METH = ['inverse', 'sqrt', 'urandom', 'PointIsValid', '_CurveNames', 'affine', 'compressed', 'uncompressed', 'setup_basemult', 'AsBytes', 'Verify', 'Sign', 'encrypt', 'decrypt', '__init__',
        '__repr__', '__str__', '__int__', '__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__pow__', '__rpow__', '__neg__', '__eq__', '__ne__', '__lt__', '__hash__',
        '__bool__', '__reduce_ex__', '__iadd__', '__isub__', '__imul__', '__getattribute__', '__sizeof__', '__dir__', '__format__', '__index__', '__float__', '__getstate__']
NAMES = ['p', 'n', 'h', 'G', 'bits', 'ctype', 'a', 'b', 'c', 'd', 'A', 'B', 'C', 'D', 'x', 'cv', 'ready', '__class__', '__dict__', '__doc__', '__weakref__', 'curve']
NONNUM = ['None', '1.5', '1j', '""', '"x"', 'b"\\0"', '[]', '{}', '()', '(1, 2)', 'object()', 'len', 'sys', '...', 'range(3)', 'FieldElement', 'c0', 'h0', 's0', 'e0']


COORD = ['FieldElement(c0.G[0], c0.p)', 'FieldElement(c0.G[1], c0.p)', 'FieldElement(c0.G[1], c0.n)', 'FieldElement(c1.G[0], c1.p)', 'FieldElement(c1.G[1], c1.p)',
         'c0.G[0]', 'c0.G[1]', 'c1.G[0]', 'c1.G[1]', 'FieldElement(0, c0.p)', 'FieldElement(3, 257)']


class Y03(PyCheck):
    pid = 'Y03'
    rule = ('a case creates valid objects of every type on two curves and two fields, then makes 25-60 calls of constructors, static constructors, '
            'methods, special methods, operators (binary, in place, ternary power), comparisons, attribute access and '
            'conversions with arguments drawn from the valid objects, never-initialised and sub-classed objects, about 90 junk values (wrong types, huge and '
            'negative integers, surrogates, embedded NULs, hostile objects whose methods raise) and 22 misbehaving hash modules; a process death, '
            'a time-out, a SystemError, a result from arithmetic with a non-number, a malformed result object or a changed valid '
            'object is a violation; non-trivial: at least 5 calls raised and at least one returned')
    cases = {'quick': 5000, 'thorough': 150000}
    budget = {'quick': 110, 'thorough': 1800}
    variants = ['plain', 'asan', 'asan', 'plain']
    restart_every = 40

    def val(self, rng):
        r = rng.random()
        if r < 0.36:
            return rng.choice(GOOD)
        if r < 0.48:
            return rng.choice(UNREADY)
        if r < 0.66:
            return rng.choice(INTS)
        if r < 0.72:
            return 'badhash(%r)' % rng.choice(BADHASH)
        if r < 0.73:
            return rng.choice(COORD)
        if r < 0.77:
            return '(%s, %s)' % (rng.choice(INTS + GOOD + COORD + COORD), rng.choice(INTS + GOOD + COORD + COORD))
        if r < 0.8:
            return rng.choice(['str(p0)', 'p1.compressed()', 'p1.uncompressed()', 's0.AsBytes()', 'str(s0)', 'repr(c0)', '"secp256k1"', 'str(p0)[:-1]', 'p1.uncompressed()[:-1]', 's0.AsBytes()[1:]'])
        return rng.choice(JUNK)

    def plausible(self, rng, f):
        """arguments of the right shape with one wrong"""
        V = lambda *o: rng.choice(o) if rng.random() < 0.7 else self.val(rng)   # noqa: E731
        I = lambda: rng.choice(INTS) if rng.random() < 0.8 else self.val(rng)   # noqa: E731
        if f in ('FieldElement', 'SubFE'):
            return [I(), I()]
        if f in ('ECurve', 'SubCV'):
            return [V('"secp256k1"', '"Ed25519"', '"nope"')]
        if f in ('ECPoint', 'SubPT'):
            if rng.random() < 0.4:
                return [V('c0', 'c1'), '(%s, %s)' % (rng.choice(COORD) if rng.random() < 0.9 else self.val(rng), rng.choice(COORD) if rng.random() < 0.9 else self.val(rng))]
            return [V('c0', 'c1'), V('c0.G', 'str(p0)', '(1, 2)', 'p2.affine()', 'p1.compressed()')]
        if f == 'ECDSASignature':
            return [V('h0'), V('s0.AsBytes()', 'str(s0)')]
        if f == 'ECDSASignatureScheme':
            return [V('c0', 'c1'), 'badhash(%r)' % rng.choice(BADHASH) if rng.random() < 0.6 else self.val(rng)]
        if f in ('ECElgamalCiphertext', 'ECElgamalCiphertext.encrypt'):
            return [V('p0', 'p1', 'p2'), V('p0', 'p1', 'p2')]
        if f.startswith('ECurve.') and f[7] != '_':
            return [I() for _ in range(8)]
        return [self.val(rng)]

    def call(self, rng):
        r = rng.random()
        v = self.val
        if r < 0.3:
            f = rng.choice(CTOR)
            if rng.random() < 0.55:
                a = self.plausible(rng, f)
            else:
                a = [v(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3, 8, 9]))]
            if rng.random() < 0.05:
                a.append(rng.choice(['p=7', 'x=1', '*[1, 2]', '**{"hash": sys}']))
            return '%s(%s)' % (f, ', '.join(a))
        if r < 0.48:
            a, b = v(rng), v(rng)
            a = rng.choice(GOOD + GOOD + GOOD + UNREADY)
            if rng.random() < 0.35:
                b = rng.choice(NONNUM)
            if rng.random() < 0.4:
                a, b = b, a
            if rng.random() < 0.12:
                return 'pow(%s, %s, %s)' % (a, b, v(rng))
            return '(%s) %s (%s)' % (a, rng.choice(['+', '-', '*', '+', '-', '*', '**', '/', '//', '%', '@', '<<', '&', '|']), b)
        if r < 0.56:
            a, b = rng.choice(GOOD + UNREADY), v(rng)
            if rng.random() < 0.5:
                a, b = b, a
            return '(%s) %s (%s)' % (a, rng.choice(['==', '!=', '<', '<=', '>', '>=', 'is', 'in']), b)
        if r < 0.78:
            o = rng.choice(GOOD + UNREADY)
            m = rng.choice(METH)
            if o in GOOD and rng.random() < 0.6:
                m = {'f': ['inverse', 'sqrt', '__init__', '__pow__'], 'c': ['PointIsValid', '__init__'], 'p': ['affine', 'compressed', 'setup_basemult', '__init__'],
                     'h': ['Sign', 'Sign', '__init__'], 's': ['Verify', 'Verify', '__init__'], 'e': ['decrypt', 'decrypt', '__init__']}[o[0]]
                m = rng.choice(m)
            a = [v(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
            if m in ('Sign', 'Verify') and rng.random() < 0.7:
                a = [rng.choice(['p0', 'p1', 'p2', '5', 'FieldElement(3, c0.n)', v(rng)]), rng.choice(['b"m"', '"m"', 'b""', '""', v(rng)])]
            if m == 'PointIsValid' and rng.random() < 0.6:
                a = [rng.choice(INTS), rng.choice(INTS)]
            return '(%s).%s(%s)' % (o, m, ', '.join(a))
        if r < 0.86:
            return '(%s).%s' % (rng.choice(GOOD + UNREADY), rng.choice(NAMES)) if rng.random() < 0.5 else \
                '%s(%s, %s%s)' % (rng.choice(['getattr', 'getattr', 'setattr', 'hasattr', 'delattr']), rng.choice(GOOD + UNREADY),
                                  rng.choice(['"p"', '"G"', '"C"', '"\\ud800"', '"a\\0b"', '""', '"x" * 1000', '"\u00e9"', v(rng)]), rng.choice(['', '', ', 5']))
        if r < 0.93:
            return '%s(%s)' % (rng.choice(['int', 'float', 'complex', 'bool', 'str', 'repr', 'hash', 'len', 'iter', 'abs', 'bytes', 'dir', 'callable', 'type', 'round', 'list',
                                           '__import__("copy").copy', '__import__("copy").deepcopy', '__import__("pickle").dumps', '-', '+', '~', 'hex', 'oct', 'divmod', 'sys.getsizeof',
                                           'gc.get_referents', 'gc.is_tracked', '__import__("weakref").ref', 'format', 'next', 'reversed', 'vars', 'isinstance']),
                               rng.choice(GOOD + UNREADY))
        if r < 0.96:
            return '[%s for _ in range(3)]' % self.call(rng)
        return '(%s)(%s)' % (rng.choice(GOOD), v(rng))

    def gen(self, rng, env):
        c, c2 = env['pool'].pick(rng, 0.5, 0.1), env['pool'].pick(rng, 0.6, 0.05)
        calls = []
        for _ in range(rng.randrange(25, 61)):
            if rng.random() < 0.06:
                calls.append(['x', rng.choice(['z = %s; z %s= %s' % (rng.choice(GOOD), rng.choice(['+', '-', '*', '**', '/']), self.val(rng)),
                                               'del c0.G', 'p0.x = 5', 'gc.collect()', '%s.__class__ = SubPT' % rng.choice(GOOD),
                                               '%s.__class__ = %s' % (rng.choice(GOOD), rng.choice(TYPES)), 'with %s: pass' % rng.choice(GOOD), 'for q in %s: pass' % rng.choice(GOOD),
                                               'class Q(%s): pass\nz = Q(%s)' % (rng.choice(TYPES), self.val(rng)), 'del z'])])
            else:
                calls.append(['e', self.call(rng)])
        return {'curve': c.to_json(), 'c2': c2.to_json(), 'q': pick_prime(rng, 200), 'calls': calls}

    def fixed_cases(self, tier, env):
        rng = random.Random(8)
        out = []
        base = {'curve': 'secp256k1', 'c2': ref.toy_curve(rng, 'ws', pmax=200).to_json(), 'q': 65537}
        # every constructor and method with every junk value alone
        every = JUNK + INTS + UNREADY + GOOD + COORD + ['badhash(%r)' % b for b in BADHASH]
        pos = {'FieldElement': ['%s, 7', '5, %s'], 'ECurve': ['%s'], 'ECPoint': ['%s', '%s, "00"', 'c0, %s', 'c0, (%s, 1)', 'c0, (1, %s)', 'c0, (f0, %s)',
               'c0, (FieldElement(c0.G[0], c0.p), %s)', 'c0, (%s, FieldElement(c0.G[1], c0.p))', 'c0, (c0.G[0], %s)', 'c1, (%s, c1.G[1])'],
               'ECDSASignature': ['%s, b"x"', 'h0, %s'],
               'ECDSASignatureScheme': ['%s, mkhash(3)', 'c0, %s'], 'ECElgamalCiphertext': ['%s, p0', 'p0, %s'], 'ECElgamalCiphertext.encrypt': ['%s, p0', 'p0, %s'],
               'FieldElement.urandom': ['%s'], 'ECPoint.urandom': ['%s'], 's0.Verify': ['p0, %s', '%s, b"m"', '%s'], 'h0.Sign': ['5, %s', '%s, b"m"', '%s'], 'e0.decrypt': ['%s'],
               'c0.PointIsValid': ['%s, 1', '1, %s', '%s']}
        for f, ps in pos.items():
            for p in ps:
                for i in range(0, len(every), 60):
                    out.append(dict(base, calls=[['e', '%s(%s)' % (f, p % v)] for v in every[i:i + 60]]))
        for k in ('ShortWeierstrass', 'Edwards', 'Montgomery', 'TwistedEdwards'):
            good = {'ShortWeierstrass': ['23', '1', '1', '28', '1', '5', '0', '1']}.get(k, ['23', '1', '2', '7', '4', '5', '3', '5'])
            for j in range(8):
                out.append(dict(base, calls=[['e', 'ECurve.%s(%s)' % (k, ', '.join(good[:j] + [v] + good[j + 1:]))] for v in every]))
        for op in ['+', '-', '*', '**', '==', '!=', '<']:
            for o in ('f0', 'p0', 'c0', 'h0', 's0', 'e0'):
                out.append(dict(base, calls=[['e', '(%s) %s (%s)' % (o, op, v)] for v in every] + [['e', '(%s) %s (%s)' % (v, op, o)] for v in every]))
        for o in UNREADY:
            out.append(dict(base, calls=[['e', '(%s).%s(%s)' % (o, m, a)] for m in METH for a in ('', 'p0', 'f0', '5', 'p0, b"m"', '5, b"m"', 'c0, c0.G', 'h0, s0.AsBytes()')]))
        return out

    def run(self, case, env):
        c, c2 = Curve.from_json(case['curve']), Curve.from_json(case['c2'])
        g = LifeProg(env)
        g.o_cv('c0', case['curve'], 'auto')
        g.o_cv('c1', case['c2'], 'auto')
        q = case['q']
        g.o_fe('f0', 5, c.n)
        g.o_fe('f1', q - 1, q)
        g.o_fe('f2', 0, q)
        g.o_pt('p0', 'c0', c.G, 'int')
        g.o_pt('p1', 'c0', None, 'neutral')
        g.o_pt('p2', 'c1', c2.G, 'int')
        g.o_ss('h0', 'c0', 'sha256')
        g.o_simp('s0', 'h0', [11, 12], False)
        g.o_emk('e0', 'p0', 'p0')
        if any(k not in g.v for k in GOOD):
            raise HarnessError('setup')
        cmds = [json.dumps([k, None, code]) for k, code in case['calls']]
        rep = [json.loads(r) for r in env['drv'].batch(cmds)]
        raised = 0
        for (k, code), r in zip(case['calls'], rep):
            if r[0] == '!':
                raised += 1
                if r[1] in ('SystemError', 'KeyboardInterrupt', 'SystemExit') and 'boom' not in r[2]:
                    raise Violation('%s: %s' % (code, r))
            elif k == 'e':
                self.judge(code, r, (c, c2))
        g.log = [code for _, code in case['calls']]
        g.finish()
        return {'raised': raised, 'returned': len(rep) - raised}

    def judge(self, code, r, cs):
        m = re.fullmatch(r'\((.*?)\) ([-+*/@%&|]|\*\*|//|<<) \((.*)\)', code)
        if m and 'Refl' not in code:
            a, op, b = m.groups()
            crypto = lambda x: x in GOOD or x in UNREADY      # noqa: E731
            if (crypto(a) and b in NONNUM or crypto(b) and a in NONNUM or a in UNREADY or b in UNREADY) and '[' not in a + b.replace('[]', ''):
                raise Violation('%s returned %s' % (code, r))
        self.wellformed(code, r, cs)

    def wellformed(self, code, r, cs):
        if r[0] in 'tl':
            for x in r[1:]:
                self.wellformed(code, x, cs)
        elif r[0] == 'F':
            if r[1] != r[2] or not 0 <= int(r[1], 16) < int(r[3], 16):
                raise Violation('%s returned the malformed element %s' % (code, r))
        elif r[0] == 'P':
            b = bytes.fromhex(r[2])
            if 'ECPoint(' not in code and 'SubPT(' not in code and not any(c.decode(b) != Curve.REJECT for c in cs):
                raise Violation('%s returned %s, which is no point of either curve' % (code, r))
        elif r[0] == 'u':
            if '__new__' not in code and 'NoInit' not in code and 'SubCV' not in code:
                raise Violation('%s returned an object that cannot be shown: %s' % (code, r))

    def nontrivial(self, case, tags):
        return tags.get('raised', 0) >= 5 and tags.get('returned', 0) >= 1


CHECKS = {'Y01': Y01, 'Y02': Y02, 'Y03': Y03, 'Y04': Y04}
